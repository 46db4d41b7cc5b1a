"""The catalogue of properties: the source of properties.jsonl and MANIFEST.json."""

PROPERTIES = [
    dict(
        id="C01", title="The pipeline accepts every input",
        statement="Preprocessing, tokenizing, parsing and rendering to HTML and to text end normally for every input string, in every mode, layout and combination of settings: no panic, no abort, no unbounded recursion, no endless rendering. This holds also for text that is tokenized and parsed without having been preprocessed.",
        forall="all input strings (well-formed, malformed, any Unicode), all page informations, all settings",
        why="The tests run a few hundred hand-written documents; the panics are in combinations of constructs (nesting, failed rules, repeated blocks) that no example has.",
        files=["src/parsing", "src/render", "src/tokenizer.rs", "src/preproc"],
        mechanism=[("rule fallback to text", "src/parsing/consume.rs"), ("recursion depth limit", "src/parsing/parser.rs"), ("partial element checks", "src/parsing/result.rs")],
        observe=["ftml::preprocess", "ftml::tokenize", "ftml::parse", "HtmlRender::render", "TextRender::render"],
        technique="grammar-based and mutational fuzzing of the whole pipeline, panics and crashes of worker processes as oracle",
        note="Random exploration over the whole surface syntax; inputs on which ftml backtracks beyond a step budget are not judged.",
    ),
    dict(
        id="C10", title="Rendered HTML is well-formed, allow-listed and escaped",
        statement="The HTML body rendered from any input is well-formed: every element is closed in order, every attribute is quoted and unique in its element, and only elements that ftml itself defines occur. No character of the wikitext reaches the HTML other than escaped as text or attribute value, or inside a style element that it cannot close. Each meta element of the output is its name and value, escaped.",
        forall="all input strings, page informations and settings",
        why="Tests compare a few hundred documents with their expected HTML; injection needs a hostile value in one particular place.",
        files=["src/render/html/escape.rs", "src/render/html/builder.rs", "src/render/html/context.rs", "src/render/html/element"],
        mechanism=[("escaping of text and attribute values", "src/render/html/escape.rs"), ("tag builder closing its tags", "src/render/html/builder.rs"), ("escaping of </ in CSS", "src/render/html/element/style.rs")],
        observe=["HtmlOutput::body", "HtmlMeta::render"],
        technique="fuzzing with hostile values in every position, an independent strict HTML parser as oracle",
        note="Random exploration; the MathML that the latex2mathml crate generates is only checked for not leaving MathML.",
    ),
    dict(
        id="C02", title="Tokens partition the text and follow the documented priorities",
        statement="Tokenizing any text gives an input-start token, then tokens whose slices and byte spans cover the text exactly, in order and without gaps or overlaps, then an input-end token. Each token is the one that the token grammar names first for that place (longest brackets first, strings, URLs, e-mail addresses, variables, identifiers, whitespace, line and paragraph breaks, otherwise a single character of other text).",
        forall="all strings",
        why="The tests tokenize a few dozen strings; priorities between tokens that share a prefix show only for particular neighbours.",
        files=["src/tokenizer.rs", "src/parsing/token", "src/parsing/lexer.pest"],
        mechanism=[("token extraction", "src/parsing/token/mod.rs"), ("token grammar", "src/parsing/lexer.pest")],
        observe=["ftml::tokenize", "Tokenization::tokens", "Tokenization::full_text"],
        technique="differential testing against a hand-written reference lexer, partition invariant",
        note="Random exploration with text made of token fragments and unusual Unicode.",
    ),
    dict(
        id="C03", title="UTF-16 indices name the same place as byte indices",
        statement="For any text and any character boundary in it, the UTF-16 index map gives the number of UTF-16 code units before it. Tokens and parse errors converted with the map keep their kind, rule and slice, and their span selects the same characters of the UTF-16 form of the text.",
        forall="all strings, all byte positions on character boundaries, including the end",
        why="The tests convert a handful of strings; surrogate pairs, combining characters and ends of text combine in endless ways.",
        files=["src/utf16.rs"],
        mechanism=[("index map", "src/utf16.rs")],
        observe=["Utf16IndexMap::get_index", "ExtractedToken::to_utf16_indices", "ParseError::to_utf16_indices"],
        technique="property-based testing against encode_utf16",
        note="Random exploration.",
    ),
    dict(
        id="C04", title="Preprocessing substitutes whitespace and typography exactly",
        statement="Preprocessing a text gives exactly: DOS and old Mac line breaks become newlines, no-break and figure spaces at the start of a line become spaces, lines of only whitespace become empty, backslash-newline is removed, tabs become four spaces, null characters become spaces, newlines at both ends are removed; then ``..'', ,,..'' and `..' within a line become curly quotes and three dots (also spaced) that are not part of a longer run become an ellipsis. Nothing else changes.",
        forall="all strings",
        why="The tests list some fifty strings; the substitutions overlap (quotes in quotes, runs of dots, whitespace of all kinds at line starts).",
        files=["src/preproc"],
        mechanism=[("whitespace", "src/preproc/whitespace.rs"), ("typography", "src/preproc/typography.rs"), ("order", "src/preproc/mod.rs")],
        observe=["ftml::preprocess", "ftml::preproc::whitespace::substitute", "ftml::preproc::typography::substitute"],
        technique="differential testing against a reference without regular expressions",
        note="Random exploration of strings made of the significant characters.",
    ),
    dict(
        id="C05", title="Includes are found, requested and substituted exactly",
        statement="ftml::include asks the includer once for all the include blocks of the text (at the start of a line, ended by ]] at the end of a line), in order, with their page references and variables (first assignment of a name wins; {$x} passed on unset is ignored), and returns the text with each block replaced by the fetched content with its variables substituted, or by what the includer gives for missing pages; all other text stays as it was, and the list of pages is that of the blocks. An includer answering with other pages or another number of pages leads to the invalid-return error, and errors of the includer are passed on. If page syntax is disabled nothing is included. NullIncluder and DebugIncluder answer for every include.",
        forall="all texts, all page contents, all answers of the includer",
        why="The tests have a dozen include blocks; spans, variables and failure paths interact over several includes.",
        files=["src/includes"],
        mechanism=[("include blocks", "src/includes/grammar.pest"), ("parsing", "src/includes/parse.rs"), ("substitution", "src/includes/mod.rs"), ("page references", "src/data/page_ref.rs")],
        observe=["ftml::include", "Includer::include_pages", "Includer::no_such_include"],
        technique="differential testing against a reference implementation with a fault-injecting includer",
        note="Random exploration of texts, page contents and faults of the includer.",
    ),
    dict(
        id="C06", title="Results depend on the arguments only",
        statement="Preprocessing, parsing and rendering to HTML and text give the same results (tree, errors, HTML, metadata, backlinks, text) for the same text, page information and settings, however often they run, whatever ran before, with tokens or trees reused, and on several threads at once; only the generated element IDs and the age of dates may differ.",
        over=["inputs", "histories"],
        forall="all pairs of documents and settings, all orders of calls",
        why="Tests run each document once; leaking state (caches, statics, indices) shows only in sequences of calls.",
        files=["src/parsing", "src/render"],
        mechanism=[("parser state per call", "src/parsing/parser.rs"), ("render context per call", "src/render/html/context.rs")],
        observe=["ftml::parse", "HtmlRender::render", "TextRender::render"],
        technique="metamorphic testing of call sequences and threads",
        note="Random exploration of short histories of calls.",
    ),
    dict(
        id="C07", title="Trees survive serialization and becoming owned",
        statement="The syntax tree of any document is equal to its owned copy (to_owned) and to the tree deserialized from its JSON form, these render to the same HTML, backlinks and text, and parse errors, page information and settings are equal to what is deserialized from their JSON form.",
        forall="all documents, page informations and settings",
        why="The tests serialize a few elements; each of some fifty element types and their variants needs matching serialization, deserialization and cloning code.",
        files=["src/tree", "src/data", "src/settings", "src/parsing/error.rs"],
        mechanism=[("cloning", "src/tree/clone.rs"), ("serde implementations", "src/tree"), ("element cloning", "src/tree/element/object.rs")],
        observe=["SyntaxTree::to_owned", "serde_json::to_string", "serde_json::from_str"],
        technique="round-trip property-based testing",
        note="Random exploration of documents with all kinds of element.",
    ),
    dict(
        id="C26", title="Text rendering gives the visible text of the tree and nothing else",
        statement="For every syntax tree, parsed or built otherwise, the text renderer gives the text of the tree in order without any markup: text, raw text, e-mails, variables (replaced by the value of the innermost include that sets them, else written {$name}), link labels, user names, dates, code and [equation references], the contents of all containers with ruby text in parentheses, lines for paragraphs, divs, quotes, headings, list items, table rows, tabs, definitions and code. Hidden contents are left out, invisible contents are replaced by one space for each character, and modules, images, inputs, footnotes, bibliographies, math, embeds, frames, styles and rules give nothing; newlines at both ends are removed.",
        forall="all syntax trees, of all element types with any values, and page informations",
        why="The tests compare the text of some documents; the element types and their nestings in trees combine without end.",
        files=["src/render/text", "src/render/handle.rs", "src/tree/variables.rs"],
        mechanism=[("element rendering", "src/render/text/elements.rs"), ("newlines and invisible mode", "src/render/text/context.rs"), ("variable scopes", "src/tree/variables.rs")],
        observe=["TextRender::render", "TextRender::render_partial"],
        technique="differential testing against a reference renderer, over generated trees and parsed documents",
        note="Random exploration of trees generated directly and of parsed documents.",
    ),
    dict(
        id="C27", title="HTML rendering gives exactly the elements of the tree",
        statement="For every syntax tree, parsed or built otherwise, the HTML has for each element of the tree, in order, the HTML that the element type has: its tag, classes, roles and other attributes, the attributes given by the user, its options (open, checked, alignment, column span, target, language, ...), its resolved address, and its contents inside of it. Footnotes, equations, headings of the table of contents and bibliography items are numbered in order with references, tooltips and lists agreeing, variables have the value of the innermost include that sets them, and the backlinks list the links rendered, in order; the metadata has title, alternative title and tags of the page.",
        forall="all syntax trees, of all element types with any values, page informations and settings",
        why="The tests compare the HTML of some documents; some fifty element types have options and values, and carry indices and scopes from one to another.",
        files=["src/render/html", "src/render/handle.rs", "src/url.rs", "src/tree"],
        mechanism=[("element rendering", "src/render/html/element"), ("indices and scopes", "src/render/html/context.rs"), ("tags and attributes", "src/render/html/builder.rs"), ("addresses", "src/url.rs")],
        observe=["HtmlRender::render", "HtmlOutput::body", "HtmlOutput::backlinks", "HtmlOutput::meta"],
        technique="differential testing against a reference renderer, over generated trees and parsed documents",
        note="Random exploration of trees generated directly and of parsed documents; MathML and minified CSS are judged by their places only.",
    ),
    dict(
        id="C31", title="Well-formed documents parse to the structure they spell out",
        statement="A well-formed document nesting the documented constructs (paragraphs, inline formatting, colors, raw, variables, users, math, links, headings, lists, quotes, tables, block tables and lists, definition lists, tabs, collapsibles, alignment, divs and spans with attributes, code, HTML, CSS, embeds, modules, footnotes, ...) parses without errors to exactly the tree that the documentation describes: every construct with its attributes and options, its contents inside of it and in order, paragraphs and line breaks where the text has them, and the footnotes, code and HTML blocks listed in order.",
        forall="all well-formed documents of bounded depth",
        why="Each construct has a few example documents; their combinations (a construct inside, before and after each other) have none.",
        files=["src/parsing/rule/impls", "src/parsing/paragraph", "src/parsing/collect", "src/parsing/parser.rs", "src/tree"],
        mechanism=[("rules", "src/parsing/rule/impls"), ("paragraphs", "src/parsing/paragraph/stack.rs"), ("depth lists", "src/parsing/depth.rs")],
        observe=["ftml::parse"],
        technique="model-based generation: documents are generated together with the tree they must parse to",
        note="Random exploration of documents generated with their expected tree.",
    ),
    dict(
        id="C08", title="Text without markup stays exactly as it is",
        statement="Text that uses no markup parses without errors to paragraphs of exactly that text: words, punctuation, single special characters (*, _, -, /, =, ~, <, >, [, |, #, & and the like) and any Unicode characters stay character for character, a newline is a line break and one or more empty lines start a new paragraph. The HTML is a p element for each paragraph with br elements for line breaks, and the text rendering gives the text back.",
        forall="all texts without markup",
        why="The tests have a few plain sentences; characters that are markup only in pairs or only at some places need many neighbours to be seen.",
        files=["src/parsing/parser.rs", "src/parsing/paragraph", "src/parsing/rule/impls", "src/render/html/escape.rs", "src/parsing/token"],
        mechanism=[("fallback to text", "src/parsing/rule/impls/text.rs"), ("paragraph stack", "src/parsing/paragraph/stack.rs"), ("escaping", "src/render/html/escape.rs")],
        observe=["ftml::parse", "HtmlOutput::body", "TextRender::render"],
        technique="property-based testing with an exact model of plain documents",
        note="Random exploration of texts of words, numbers and lone special characters.",
    ),
    dict(
        id="C09", title="Verbatim constructs take their contents as they are",
        statement="The contents of @@raw@@, @<raw>@, [!-- comments --], [[$ inline math $]], [[code]], [[html]], [[math]] and [[module CSS]] are taken character for character (math without whitespace around it), whatever markup they have, up to the end of the construct: no element, footnote, heading, code or HTML block comes from inside of them. Comments leave nothing.",
        forall="all contents that do not have the end of the construct, in several contexts",
        why="The tests have a few contents; any token inside may be taken for markup by mistake.",
        files=["src/parsing/rule/impls/raw.rs", "src/parsing/rule/impls/comment.rs", "src/parsing/rule/impls/math.rs", "src/parsing/rule/impls/block/blocks/code.rs", "src/parsing/rule/impls/block/blocks/html.rs", "src/parsing/rule/impls/block/blocks/math.rs", "src/parsing/rule/impls/block/parser.rs"],
        mechanism=[("raw text", "src/parsing/rule/impls/raw.rs"), ("verbatim block bodies", "src/parsing/rule/impls/block/parser.rs"), ("comments", "src/parsing/rule/impls/comment.rs")],
        observe=["ftml::parse", "SyntaxTree::code_blocks", "SyntaxTree::html_blocks", "SyntaxTree::footnotes"],
        technique="property-based testing with generated hostile contents and the exact tree as oracle",
        note="Random exploration; contents whose last characters form a token with the end are left out.",
    ),
    dict(
        id="C20", title="Lists and quotes nest by the depth of their lines",
        statement="Consecutive lines of list items (* bullets, # numbers, indented by leading spaces) form lists nested by their depth: each item is in a list of its own depth, deeper items are in sub-lists at the place where they stand, and a change of kind at a depth starts a new list there. Consecutive quote lines form nested quotes, one for each > of a line, with paragraphs and line breaks inside. All lines are kept, in order.",
        forall="all sequences of list or quote lines with any depths and kinds",
        why="The tests have a few dozen lists; the depth algorithm is recursive and goes wrong for particular jumps of depth and kind.",
        files=["src/parsing/depth.rs", "src/parsing/rule/impls/list.rs", "src/parsing/rule/impls/blockquote.rs"],
        mechanism=[("depths to trees", "src/parsing/depth.rs"), ("lists", "src/parsing/rule/impls/list.rs"), ("quotes", "src/parsing/rule/impls/blockquote.rs")],
        observe=["ftml::parse"],
        technique="differential testing against a recursive reference over generated depth sequences",
        note="Random exploration of sequences of up to some dozen lines.",
    ),
    dict(
        id="C11", title="No address or attribute in the HTML runs a script",
        statement="Whatever the input, no href, src, action or similar attribute of the HTML has an address that a browser would run as a script or load as inline data (javascript:, vbscript:, data:, also disguised by case, whitespace, control characters or added paths), other than exactly javascript:; and the avatars of users; such addresses given by users are replaced by #invalid-url. There are no event handlers other than that of the table of contents, and script elements come from gist.github.com and gitlab.com only.",
        forall="all inputs with addresses in any position, and trees built otherwise",
        why="The tests have a few javascript: links; disguises, positions and concatenations of addresses are endless.",
        files=["src/url.rs", "src/tree/attribute", "src/tree/link.rs", "src/render/html/element/link.rs", "src/render/html/element/image.rs", "src/render/html/element/iframe.rs", "src/render/html/element/embed.rs"],
        mechanism=[("detection of schemes", "src/url.rs"), ("addresses in attributes", "src/tree/attribute/mod.rs"), ("location and path of links", "src/tree/link.rs")],
        observe=["HtmlOutput::body"],
        technique="fuzzing with mutated hostile addresses in every position, browser-like reading of the HTML as oracle",
        note="Random exploration; scripts inside of pages that frames load are out of scope.",
    ),
    dict(
        id="C12", title="Only safe attributes of users are kept, and these exactly",
        statement="Of the key=\"value\" arguments of a block (keys in any case, values with escapes, a later value of a key replacing an earlier one) exactly those on the documented list of safe attributes, and data-* and aria-* attributes of letters, digits and dashes, become attributes of the tree and of the HTML element, with lower-case keys and unchanged values. Boolean attributes (checked, hidden, ...) with a true value (true, t, 1, yes) are written without value and left out for a false one (false, f, 0, no); href and src values are normalized addresses.",
        forall="all blocks that take attributes, all sequences of arguments",
        why="The tests have some attributes on some blocks; the filter must hold for each key, value, case and block.",
        files=["src/tree/attribute", "src/parsing/rule/impls/block/arguments.rs", "src/parsing/rule/impls/block/parser.rs", "src/parsing/string.rs", "src/parsing/boolean.rs", "src/render/html/attributes.rs"],
        mechanism=[("filter", "src/tree/attribute/mod.rs"), ("allow-list", "src/tree/attribute/safe.rs"), ("arguments", "src/parsing/rule/impls/block/parser.rs"), ("escapes", "src/parsing/string.rs")],
        observe=["ftml::parse", "HtmlOutput::body", "AttributeMap::insert"],
        technique="differential testing against a reference filter, on all blocks with attributes, in tree and HTML",
        note="Random exploration of argument lists.",
    ),
    dict(
        id="C13", title="IDs given by users are isolated from generated ones",
        statement="If IDs of users are to be isolated, every ID that comes from the text (id attributes on any block, [[# name]] anchors, [[target name]]) is in the HTML with each of its words prefixed by u- (once; not if it has that already) and joined by single spaces; otherwise it is there as written. IDs of headings, tables of contents, tabs and bibliography items are those that ftml generates: fixed ones in order (toc0, toc1, ...) if true IDs are used, else random.",
        forall="all documents with IDs, all settings",
        why="The tests check two settings on one document; each block and anchor form has to isolate by itself.",
        files=["src/id_prefix.rs", "src/tree/attribute/mod.rs", "src/parsing/rule/impls/anchor.rs", "src/parsing/rule/impls/block/blocks/target.rs", "src/parsing/rule/impls/block/arguments.rs", "src/render/html/random.rs", "src/render/html/element/container.rs"],
        mechanism=[("prefixing", "src/id_prefix.rs"), ("attributes", "src/parsing/rule/impls/block/arguments.rs"), ("anchors", "src/parsing/rule/impls/anchor.rs")],
        observe=["HtmlOutput::body"],
        technique="property-based testing: sequence of IDs in the HTML against that of the generated text; fuzzing for unprefixed IDs",
        note="Random exploration.",
    ),
    dict(
        id="C24", title="Links and images lead where they say",
        statement="Triple-bracket links ([[[page]]], [[[page|label]]], [[[page|]]], [[[*new tab]]]), single-bracket links, anchor links, bare URLs, interwiki links (prefixes of the settings; unknown ones stay text) and images (with all alignments, sources and links) give the element with the right type, location (URL, or page with site and category), following path and anchor, label (text, page title, or the target without its category) and target. The HTML has the normalized address, the label, and the classes for the type of link.",
        forall="all targets, labels, settings of interwiki prefixes and local paths",
        why="The tests have some dozens of targets; sites, categories, paths, anchors, schemes and labels combine.",
        files=["src/parsing/rule/impls/link_triple.rs", "src/parsing/rule/impls/link_single.rs", "src/parsing/rule/impls/link_anchor.rs", "src/tree/link.rs", "src/tree/image.rs", "src/data/page_ref.rs", "src/settings/interwiki.rs", "src/url.rs", "src/render/html/element/link.rs", "src/render/html/element/image.rs", "src/parsing/rule/impls/block/blocks/image.rs"],
        mechanism=[("locations", "src/tree/link.rs"), ("page references", "src/data/page_ref.rs"), ("addresses", "src/url.rs"), ("labels", "src/render/handle.rs")],
        observe=["ftml::parse", "HtmlOutput::body", "HtmlOutput::backlinks"],
        technique="differential testing against reference parsers of targets and a reference renderer",
        note="Random exploration.",
    ),
    dict(
        id="C14", title="Footnotes are gathered, numbered and listed",
        statement="Each [[footnote]] that is shown gives one reference and one entry, in the order of the text, numbered from 1 in both; footnotes in comments, verbatim text and conditional blocks that are not shown give none, and one within markup that fails and is shown as text counts exactly once. The contents are parsed as elsewhere, except that footnotes and footnote blocks in footnotes stay text. The list is at each [[footnoteblock]], or at the end if there is none, with its title (by default \"Footnotes\"), unless it is hidden or there are no footnotes.",
        forall="all documents with footnotes, at any place within other constructs, nested constructs and failing constructs",
        why="Tests have footnotes at a few places; which ones are counted depends on the success of every rule around them.",
        files=["src/parsing/rule/impls/block/blocks/footnote.rs", "src/parsing/parser.rs", "src/parsing/collect/consume.rs", "src/render/html/element/footnotes.rs", "src/tree/syntax_tree.rs"],
        mechanism=[("footnote storage", "src/parsing/parser.rs"), ("roll-back of failed rules", "src/parsing/consume.rs"), ("footnote rendering", "src/render/html/element/footnotes.rs")],
        observe=["SyntaxTree::footnotes", "Element::Footnote", "HtmlOutput::body"],
        technique="property-based testing: footnotes placed in generated live, dead and failing contexts, with the expected list as oracle",
        note="Random exploration; footnotes in bibliographies are left out.",
    ),
    dict(
        id="C15", title="Headings make up the table of contents",
        statement="A line of one to six plus signs, an optional asterisk, a space and more gives a heading of that level. Each heading that is shown and has no asterisk is in the table of contents, once and in order, as a link #tocN (N counted from 0) with the text of the heading without formatting, nested in bullet lists by its level; headings in hidden conditionals, comments and verbatim text are not. If true IDs are used, the heading in the HTML has the ID tocN (else a random one); those with an asterisk have none; each [[toc]] shows all of the list, also headings that come after it.",
        forall="all sequences of headings of any level and contents, at any place within blocks, failing constructs and hidden conditionals",
        why="Tests have some sequences of levels; gathering depends on the success of every rule around a heading.",
        files=["src/parsing/rule/impls/header.rs", "src/parsing/rule/impls/block/blocks/toc.rs", "src/parsing/depth.rs", "src/parsing/mod.rs", "src/parsing/parser.rs", "src/render/html/element/toc.rs", "src/tree/heading.rs"],
        mechanism=[("table of contents storage", "src/parsing/parser.rs"), ("list building", "src/parsing/mod.rs"), ("heading rule", "src/parsing/rule/impls/header.rs"), ("heading IDs", "src/tree/heading.rs")],
        observe=["SyntaxTree::table_of_contents", "Element::Container", "HtmlOutput::body"],
        technique="property-based testing: headings placed in generated live, dead and failing contexts, with a reference list of contents as oracle",
        note="Random exploration; headings in footnotes are left out, since these are rendered twice.",
    ),
    dict(
        id="C16", title="Citations show the number of their bibliography entry",
        statement="Each [[bibliography]] consisting of a definition list gives its entries in order, numbered from 1, under the given title (by default \"Bibliography\") unless hidden; with other contents it fails. ((bibcite label)), [[bibcite_ label]], and [[bibcite label]] (that one in brackets) show the number and the contents of the first entry with just that label, in the first bibliography of the page that has it, wherever they are; if no shown bibliography has it, an error. Of entries of one bibliography with the same label only the first counts, and those in comments and hidden conditionals do not.",
        forall="all documents with bibliographies and citations, at any place within other constructs, nested constructs and failing constructs",
        why="Tests have two documents with bibliographies; order, duplicate labels, hidden ones and failing rules around them combine.",
        files=["src/parsing/rule/impls/bibcite.rs", "src/parsing/rule/impls/block/blocks/bibcite.rs", "src/parsing/rule/impls/block/blocks/bibliography.rs", "src/tree/bibliography.rs", "src/render/html/element/bibliography.rs", "src/parsing/rule/impls/definition_list.rs"],
        mechanism=[("bibliography storage", "src/tree/bibliography.rs"), ("roll-back of failed rules", "src/parsing/consume.rs"), ("citation rendering", "src/render/html/element/bibliography.rs")],
        observe=["SyntaxTree::bibliographies", "Element::BibliographyCite", "Element::BibliographyBlock", "HtmlOutput::body"],
        technique="property-based testing: bibliographies and citations placed in generated live, dead and failing contexts, with a reference resolution as oracle",
        note="Random exploration; entries have no footnotes or citations of their own.",
    ),
    dict(
        id="C34", title="Code and HTML blocks are gathered in order, code names are unique",
        statement="The code blocks and HTML blocks of the syntax tree are those that are shown on the page, with their exact contents, in the order of the text: a block within markup that fails counts exactly once, one in a comment or hidden conditional does not. A code block has its name in normal form (lower case, words joined by dashes); one with the name of an earlier code block of the page fails and stays text, and is not gathered. Its language is in lower case.",
        forall="all documents with code and HTML blocks, names, languages, and constructs around them",
        why="Tests have a few pages with one or two blocks; gathering depends on the success of every rule around a block, and names on all blocks before.",
        files=["src/parsing/rule/impls/block/blocks/code.rs", "src/parsing/rule/impls/block/blocks/html.rs", "src/tree/code.rs", "src/parsing/parser.rs", "src/parsing/rule/impls/block/parser.rs"],
        mechanism=[("storage of blocks", "src/parsing/parser.rs"), ("roll-back of failed rules", "src/parsing/consume.rs")],
        observe=["SyntaxTree::code_blocks", "SyntaxTree::html_blocks", "Element::Code", "Element::Html"],
        technique="property-based testing: blocks placed in generated live, dead and failing contexts, with the expected list as oracle",
        note="Random exploration; blocks that fail get no constructs around them.",
    ),
    dict(
        id="C17", title="Page syntax is text in forum posts and messages, and only that differs",
        statement="Pages, drafts and lists have modules, tables of contents, [[include-elements]] and includes, and images of local files. In forum posts and direct messages each of these blocks is text, reported as not supported, just as a block whose name does not exist; includes are left in the text without asking the includer; and local files are not linked to. Apart from these settings the mode makes no difference to the syntax tree, errors and HTML, other than IDs being true only for pages.",
        forall="all texts, all modes and layouts",
        why="Tests check one document per block in one mode; the difference must hold wherever a block is and whatever is around it.",
        files=["src/settings/mod.rs", "src/parsing/parser.rs", "src/parsing/rule/impls/block/blocks/toc.rs", "src/parsing/rule/impls/block/blocks/module/rule.rs", "src/parsing/rule/impls/block/blocks/include_elements.rs", "src/includes/mod.rs", "src/render/handle.rs"],
        mechanism=[("settings of the modes", "src/settings/mod.rs"), ("check of page syntax", "src/parsing/parser.rs"), ("local files", "src/render/handle.rs")],
        observe=["WikitextSettings::from_mode", "ftml::include", "ftml::parse", "HtmlOutput::body"],
        technique="metamorphic testing: a document with page syntax against the same with names of blocks that do not exist, and across modes",
        note="Random exploration.",
    ),
    dict(
        id="C18", title="Blocks are found by name, alias, case, flags and matching end",
        statement="Each block gives its element under every one of its names, in upper or lower case, with spaces within the brackets, with argument names in any case, and ended by any of its names in any case (also with an underscore); what the aliases give is the same, except that alignments of images and tables of contents are in the name. Only anchors, check boxes, radio buttons, users and [[*later]] take a star, and only anchors, citations, div, span, ul, ol and li an underscore after the name. A block of another name, with a flag that it does not take, or without an end of its own stays text, with an error that says why.",
        forall="all 60 blocks, their aliases, spellings, flags and ends, nested in each other",
        why="Tests have one or two spellings of some blocks; this is for each name in each spelling with each ending.",
        files=["src/parsing/rule/impls/block/mapping.rs", "src/parsing/rule/impls/block/rule.rs", "src/parsing/rule/impls/block/parser.rs", "src/parsing/rule/impls/block/arguments.rs", "src/parsing/rule/impls/block/blocks"],
        mechanism=[("table of names", "src/parsing/rule/impls/block/mapping.rs"), ("heads and ends of blocks", "src/parsing/rule/impls/block/parser.rs"), ("flags", "src/parsing/rule/impls/block/rule.rs")],
        observe=["ftml::parse"],
        technique="metamorphic testing: spellings against the plain name with a known element, and misspellings against a block that does not exist",
        note="Random exploration over the finite set of names, with generated spellings and nestings.",
    ),
    dict(
        id="C19", title="Conditional blocks show all of their contents or nothing",
        statement="[[iftags]] shows its contents if the page has every tag with a +, none with a -, and one of those without a sign (if there are any); [[ifcategory]] does so for the category of the page (_default if it has none), with + the same as no sign. A document is parsed as if each conditional that holds was replaced by its contents, and each other one was not there: also for items, rows, cells and tabs in conditionals, and for footnotes, headings, code blocks and all else gathered for the page.",
        forall="all documents with (nested) conditionals, conditions, tags and categories",
        why="Tests have some conditions around plain text; what is gathered for the page, and parts of lists and tables, depend on each other.",
        files=["src/parsing/element_condition.rs", "src/parsing/rule/impls/block/blocks/iftags.rs", "src/parsing/rule/impls/block/blocks/ifcategory.rs", "src/parsing/parser_wrap.rs", "src/parsing/parser.rs"],
        mechanism=[("conditions", "src/parsing/element_condition.rs"), ("discarding hidden contents", "src/parsing/rule/impls/block/blocks/iftags.rs"), ("partial elements in conditionals", "src/parsing/parser_wrap.rs")],
        observe=["ftml::parse", "HtmlOutput::body"],
        technique="metamorphic testing: documents with conditionals against the same documents with these resolved by a reference evaluation",
        note="Random exploration; contents are inline markup, or whole blocks and items.",
    ),
    dict(
        id="C21", title="Tables have the rows and cells that are written",
        statement="Consecutive lines of ||-separated cells are one table, ended by a blank line or any other line, each cell with its contents (also over several lines with ' _'), header or alignment mark, and a span of one more than the number of empty marks before it; lines without their ending mark are text. [[table]], [[row]], [[cell]] and [[hcell]] give exactly the rows and cells nested in them, with the attributes of each, cells spanning the columns of a positive colspan, or one. Anything but rows in a table, or cells in a row, makes the table text, with an error that says so.",
        forall="all tables of lines and blocks, nested in each other, with inline contents, and all incomplete lines",
        why="Tests have a few tables; what counts as the end of a row, a span or a table depends on the combination of marks, contents and lines.",
        files=["src/parsing/rule/impls/table.rs", "src/parsing/rule/impls/block/blocks/table.rs", "src/tree/table.rs", "src/render/html/element/table.rs"],
        mechanism=[("table of lines", "src/parsing/rule/impls/table.rs"), ("table of blocks", "src/parsing/rule/impls/block/blocks/table.rs")],
        observe=["ftml::parse", "HtmlOutput::body"],
        technique="property-based testing: generated tables with their expected element as oracle, also for the HTML",
        note="Random exploration, tables of blocks nested up to three levels.",
    ),
    dict(
        id="C25", title="Backlinks are exactly the links shown, in order",
        statement="The backlinks of the HTML output list each link that the page shows, in the order shown and as often as shown: page links as their page (and site), local paths without their first slash as pages, and all other addresses, also of interwiki links, as external. Anchors, links that do nothing, images, users and tables of contents are none, nor are links in hidden conditionals, comments or verbatim text; a link inside markup that fails counts once. No pages are listed as included, as includes are not part of the text that is parsed.",
        forall="all documents with links of all kinds, within all constructs, footnotes and bibliographies",
        why="Tests check links alone; backlinks must stay in step with rendering for each nesting, and with markup that is parsed twice.",
        files=["src/data/backlinks.rs", "src/render/html/context.rs", "src/render/html/element/link.rs", "src/parsing/rule/impls/link_triple.rs", "src/parsing/rule/impls/link_single.rs", "src/parsing/rule/impls/link_anchor.rs", "src/parsing/rule/impls/url.rs"],
        mechanism=[("recording of links", "src/render/html/context.rs"), ("rendering of links", "src/render/html/element/link.rs")],
        observe=["HtmlOutput::backlinks", "HtmlOutput::body"],
        technique="property-based testing: links placed in generated contexts with the expected list of backlinks as oracle",
        note="Random exploration; up to six paragraphs or blocks, with contexts up to three levels deep.",
    ),
    dict(
        id="C22", title="Inline formatting pairs its marks, and is text where it cannot",
        statement="Bold, italics, underline, super- and subscript, strikethrough (-- and ~~), monospace and ##color|…## go from a mark to the first end mark that is not inside formatting or a block that starts in between; there may be no blank line between these, nor (but for color) a space right before the end. A mark that has no such end is text by itself (-- is a dash), and everything after it is parsed as if it was not a mark; so are inline blocks without their end and comments that do not end. A color of 3 or 6 hexadecimal digits gets a #, any other is kept as it is written.",
        forall="all sequences of marks, inline blocks, comments, raw text, links, words, spaces, line ends and blank lines",
        why="Tests have each mark alone or in one pair; which marks pair depends on everything between them, and on what was tried and failed before.",
        files=["src/parsing/rule/impls/bold.rs", "src/parsing/rule/impls/italics.rs", "src/parsing/rule/impls/underline.rs", "src/parsing/rule/impls/superscript.rs", "src/parsing/rule/impls/subscript.rs", "src/parsing/rule/impls/strikethrough.rs", "src/parsing/rule/impls/monospace.rs", "src/parsing/rule/impls/color.rs", "src/parsing/rule/impls/comment.rs", "src/parsing/rule/impls/underscore_line_break.rs", "src/parsing/rule/impls/dash.rs", "src/parsing/collect", "src/parsing/consume.rs", "src/parsing/paragraph"],
        mechanism=[("collecting to the end mark", "src/parsing/collect/generic.rs"), ("falling back to text", "src/parsing/consume.rs"), ("paragraphs", "src/parsing/paragraph/mod.rs")],
        observe=["ftml::parse", "HtmlOutput::body"],
        technique="differential testing: random sequences of marks against a reference interpreter with memoization",
        note="Random exploration; up to 24 items with up to three kinds of marks; sequences which do not lex to their items are left out.",
    ),
    dict(
        id="C28", title="Malformed markup is text in its place, and is reported",
        statement="Markup that is invalid (a block of unknown name, with missing or wrong arguments, without its end, or in the wrong place; formatting, links and brackets that do not close) appears as it is written, as text in its place, and changes nothing around it. It is reported with an error of the kind that applies, and all errors of other parts of the text are reported as they are without it, wherever these are (also in lists, tables, quotes, definition lists and blocks), unless what they are in fails itself. Each error has the place and kind of one token of the text.",
        forall="all texts for the places of errors; each kind of malformed markup within generated constructs",
        why="Tests have each mistake once in a paragraph; falling back must restore the state of the parser wherever the mistake is.",
        files=["src/parsing/error.rs", "src/parsing/consume.rs", "src/parsing/rule/impls/fallback.rs", "src/parsing/rule/impls/page.rs", "src/parsing/rule/mod.rs", "src/parsing/rule/impls/block/parser.rs", "src/parsing/rule/impls/definition_list.rs"],
        mechanism=[("falling back to text", "src/parsing/consume.rs"), ("errors", "src/parsing/error.rs"), ("checks of partial elements", "src/parsing/strip.rs")],
        observe=["ftml::parse", "ParseError"],
        technique="metamorphic testing: a document with malformed markup against the same with a word instead, trees and errors compared",
        note="Random exploration over about 100 kinds of malformed markup, each within up to three constructs.",
    ),
dict(id="C29", title="Dates are the moment that is written",
 statement="A date block holds exactly the moment its value says: a UNIX time, or an ISO 8601 / RFC 3339 date or time (calendar, ordinal or week date; basic or extended; with any fraction and offset), in the proleptic Gregorian calendar, with an offset if and only if one is written in it or in the 'tz' argument ([+-]H[H][:MM], HHMM, or seconds), and 'format' and 'hover' as given. The HTML output has its UNIX timestamp and the text output shows its date, time and offset. A block whose value is no such date, whose offset is invalid or written twice, or whose 'hover' is no truth value stays text.",
 forall="every date or time with a four-digit year, every offset of less than a day, every UNIX time in range, arguments in any order, and values that miss each of these by one",
 why="a wrong moment is shown to each reader; the tests try a dozen values, none of them an ordinal, week or basic date, and compare only within five seconds",
 files=["src/parsing/rule/impls/block/blocks/date.rs", "src/tree/date.rs", "src/render/html/element/date.rs", "src/render/text/elements.rs"],
 mechanism=[("parsing dates and offsets", "src/parsing/rule/impls/block/blocks/date.rs"), ("dates with and without offsets", "src/tree/date.rs")],
 observe=["ftml::parse", "HtmlOutput::body", "TextRender"],
 technique="property-based testing against a reference calendar (days from civil, ISO weeks) that generates dates with their known moment",
 note="Years outside 1900-9999 and offsets with seconds cannot be shown by the text renderer and are only compared in the tree and in HTML."),
    dict(
        id="C35", title="Arguments of blocks are the values that they say",
        statement="Blocks take their arguments exactly as written: [[char]] gives the character of an HTML entity name or a decimal or hexadecimal code; [[lines]] a number from 1 to 100; [[size]] its font size; names, labels, URLs and texts of users, radio buttons, targets, equations, ruby, tabs, iframes and embeds are their text; strings in quotes are their text with escapes replaced, the last one of a name in any case counting, in any order and on any lines. Truth values are true, t, yes, 1, false, f, no and 0 in any case, and hideLocation is top, bottom, both, neither or none. Missing optional arguments give the documented default (a collapsible is folded with its link at the top; categories and roots of page trees are not shown, titles are); a block with a missing or invalid required argument or any other value of these kinds stays text.",
        forall="all blocks with arguments of their own, in all combinations, orders and notations of the arguments",
        why="Tests have one or two values of each argument; entities alone have over 2000 names, and each argument is read, defaulted and refused by code of its own.",
        files=["src/parsing/rule/impls/block/parser.rs", "src/parsing/rule/impls/block/arguments.rs", "src/parsing/boolean.rs", "src/parsing/string.rs", "src/parsing/rule/impls/block/blocks/char.rs", "src/parsing/rule/impls/block/blocks/lines.rs", "src/parsing/rule/impls/block/blocks/size.rs", "src/parsing/rule/impls/block/blocks/collapsible.rs", "src/parsing/rule/impls/block/blocks/radio.rs", "src/parsing/rule/impls/block/blocks/embed.rs", "src/parsing/rule/impls/block/blocks/user.rs", "src/parsing/rule/impls/block/blocks/math.rs", "src/parsing/rule/impls/block/blocks/iframe.rs", "src/parsing/rule/impls/block/blocks/ruby.rs", "src/parsing/rule/impls/block/blocks/target.rs", "src/parsing/rule/impls/block/blocks/tabs.rs", "src/parsing/rule/impls/block/blocks/module"],
        mechanism=[("arguments of block heads", "src/parsing/rule/impls/block/parser.rs"), ("argument maps and truth values", "src/parsing/rule/impls/block/arguments.rs")],
        observe=["ftml::parse", "HtmlOutput::body"],
        technique="property-based testing: blocks generated together with the elements they mean, with the entity table of another implementation",
        note="Random exploration; values of several words and symbols, up to three blocks in a text; invalid blocks have values without markup.",
    ),
    dict(
        id="C23", title="What blank lines separate is parsed on its own",
        statement="A page of two parts with a blank line between them has the elements of the first part followed by those of the second, each as if it was parsed alone, if nothing in the first part is left open and no list or quote goes on in the second. Likewise its footnotes, headings in the table of contents, code blocks, HTML blocks and errors (with their places moved) are those of the first part followed by those of the second, bibliographies are numbered on, and an implied footnote list is added once, at the end, if neither part has one.",
        forall="all pairs of documents, well-formed or not, under these conditions",
        why="Tests parse one construct at a time; state of the parser that is not reset, restored or counted on shows only in what comes after it.",
        files=["src/parsing/parser.rs", "src/parsing/mod.rs", "src/parsing/paragraph/mod.rs", "src/parsing/parser_wrap.rs", "src/parsing/rule/impls/list.rs", "src/parsing/rule/impls/blockquote.rs", "src/parsing/collect"],
        mechanism=[("state of the parser", "src/parsing/parser.rs"), ("paragraphs", "src/parsing/paragraph/mod.rs")],
        observe=["ftml::parse"],
        technique="metamorphic testing: the parse of two joined documents against the joined parses of both",
        note="Random exploration with generated well-formed documents, mixtures of markup and mutated examples; first parts with an error at the end of the input are left out.",
    ),
    dict(
        id="C30", title="Nesting has limits, beyond which text stays text",
        statement="Up to 99 constructs nested around a text are parsed; if there are more, closed or not, the whole page is its raw text with the single error that the recursion depth was exceeded, and no block, footnote, heading, bibliography or link is gathered from any of it. List items indented by up to 20 spaces and quotes of up to 30 marks are nested as deeply as they say; of lines in a row, those up to the last one beyond this are text, and the others a list or quote.",
        forall="all nestings of blocks, inline markup, lists, quotes, tables, headings and definition lists in each other, among other content",
        why="Tests nest some four levels; the limits are there for input that no one writes by hand, and are enforced by counters that any rule can fail to restore.",
        files=["src/parsing/consume.rs", "src/parsing/parser.rs", "src/parsing/mod.rs", "src/parsing/rule/impls/list.rs", "src/parsing/rule/impls/blockquote.rs", "src/parsing/rule/impls/header.rs", "src/parsing/rule/impls/definition_list.rs"],
        mechanism=[("the recursion limit", "src/parsing/parser.rs"), ("raw pages", "src/parsing/mod.rs"), ("depths of lists and quotes", "src/parsing/rule/impls/list.rs")],
        observe=["ftml::parse", "HtmlOutput::backlinks"],
        technique="property-based testing: nestings generated with the number of their constructs, close to and beyond the limits",
        note="Random exploration; up to 220 constructs of up to eight kinds, between up to two other pieces of text; limits as in the code.",
    ),
    dict(
        id="C33", title="Work grows with the size of a text, not with its shape",
        statement="The steps and memory that preparing, parsing and rendering a text take grow in proportion to it (and to the output) when closed pieces of markup are repeated, and when closed constructs are nested more deeply, within the limit of nesting or beyond it. Whatever is left open, closed twice or malformed otherwise and then repeated, they do not grow beyond a polynomial of degree four; no markup makes the work double with each repetition.",
        forall="all pieces of markup, repeated or nested in themselves any number of times",
        why="Tests have small inputs, which are fast even if each construct left open doubles the work; a page of one kilobyte must not take hours.",
        files=["src/parsing/consume.rs", "src/parsing/rule/mod.rs", "src/parsing/parser.rs", "src/parsing/rule/impls/table.rs", "src/parsing/rule/impls/header.rs", "src/parsing/collect", "src/tokenizer.rs", "src/preproc", "src/render/html", "src/render/text"],
        mechanism=[("failed attempts", "src/parsing/parser.rs"), ("rules", "src/parsing/rule/mod.rs")],
        observe=["ftml::preprocess", "ftml::tokenize", "ftml::parse", "HtmlRender", "TextRender", "log records and allocations"],
        technique="metamorphic testing: work counted in log records and allocated bytes, for generated pieces and their multiples",
        note="Work that neither logs nor allocates is not counted. Random exploration of 3 to 24 repetitions against two or four times as many.",
    ),
    dict(
        id="C32", title="Page references and interwiki addresses mean what they say",
        statement="A reference \":site:page\" is the page of that site and any other text which does not begin with a colon is a page of this site, without the white space around them; one which is empty or begins with a colon but names no site is refused. Its fields, the text it is shown as and its JSON give the same reference again. An interwiki address \"prefix:path\" is the template of exactly that prefix with the path (up to its end, further colons included) for each $$ and %20 for each space, and no address if prefix or path are empty or the prefix is unknown.",
        forall="all strings, and all tables of prefixes and templates",
        why="Tests have some ten references and the default prefixes; empty, blank, doubled and non-ASCII parts only matter in combination.",
        files=["src/data/page_ref.rs", "src/settings/interwiki.rs"],
        mechanism=[("references", "src/data/page_ref.rs"), ("interwiki", "src/settings/interwiki.rs")],
        observe=["PageRef", "InterwikiSettings"],
        technique="differential testing against reference parsers, and round trips",
        note="Random exploration of strings of up to a dozen colons, spaces and words.",
    ),
    dict(
        id="C36", title="Values are called by their names, and by no others",
        statement="Layouts, alignments, float marks, link types, anchor targets, headings, heading levels and karma levels are made from exactly the texts or numbers that denote them (layouts and anchor targets in any case), all others are refused, and their names, classes and HTML attributes denote them in turn. The name of an element, container, list type, module, embed, image source, link type, token or parse error kind is the type that its JSON form says, whatever it contains. An image source is the URL, or the file, page and site between its slashes (after a first one), and refused if there are more; scores are their numbers, and parse outcomes their value and errors.",
        forall="all texts and numbers, all syntax trees, tokens and parse errors",
        why="The tests convert a handful of names; what must be refused, and that names, JSON forms and attributes agree, is a matter of all the others.",
        files=["src/layout.rs", "src/data/karma.rs", "src/data/score.rs", "src/tree/align.rs", "src/tree/anchor.rs", "src/tree/clear_float.rs", "src/tree/heading.rs", "src/tree/image.rs", "src/tree/link.rs", "src/tree/embed.rs", "src/tree/element/object.rs", "src/parsing/outcome.rs"],
        mechanism=[("conversions", "src/tree/align.rs"), ("conversions", "src/tree/anchor.rs"), ("layouts", "src/layout.rs"), ("names of elements", "src/tree/element/object.rs"), ("image sources", "src/tree/image.rs")],
        observe=["TryFrom and FromStr of the types", "Element::name", "Token::name", "ParseErrorKind::name", "ImageSource::parse", "serde_json::to_string"],
        technique="property-based testing of conversions against tables and of names against JSON forms, with texts near the names",
        note="Random exploration of names with a change or two, numbers, trees and documents.",
    ),
    dict(
        id="C37", title="A setting or page datum changes only what it is about",
        statement="Minifying changes nothing but the contents of styles; true IDs nothing but the IDs that ftml makes and references to them; allowing local paths nothing but images of local files (a message stands in for each); isolating IDs nothing but the IDs and anchor names of users; the layout nothing but the generator in the metadata. The title, alternative title and tags of a page change only its metadata (tags also what is conditional on them, the category only what is conditional on it), its score nothing, the name of the page only addresses of its files, that of the site only addresses and titles. Page syntax, interwiki prefixes and isolation make no difference to rendering, and prefixes only to addresses that begin with them.",
        forall="all documents, settings and data of pages",
        why="The tests render with one set of page data and settings each; that nothing else depends on one of them is a statement about pairs of runs on any document.",
        files=["src/settings/mod.rs", "src/data/page_info.rs", "src/render/html/context.rs", "src/render/html/element/style.rs", "src/render/html/element/toc.rs", "src/render/html/element/container.rs", "src/render/handle.rs", "src/tree/attribute/mod.rs", "src/parsing/rule/impls/anchor.rs"],
        mechanism=[("settings", "src/settings/mod.rs"), ("metadata", "src/render/html/context.rs"), ("local files", "src/render/handle.rs"), ("true IDs", "src/render/html/element/toc.rs"), ("isolation", "src/tree/attribute/mod.rs")],
        observe=["ftml::parse", "HtmlRender", "TextRender", "HtmlOutput"],
        technique="metamorphic testing: runs that differ in one setting or datum, compared outside of what it is about",
        note="Random exploration of documents with up to four pieces, mostly of those which settings are about.",
    ),
    dict(
        id="C38", title="Containers of the tree are the sequences, maps and stacks they stand for",
        statement="Elements are the same sequence in each of their three forms: of the same length, order and items, borrowed or owned, and fit for a paragraph if all of them are (as text, inline formatting, links, images, input and references are, but no block is). In a bibliography the first reference of a label is kept, with its number, and in a list of bibliographies the first one that has it is found, after any additions, appends and truncations. Variables are those of the innermost scope that has them, and leaving a scope restores what was before it. Attributes hold what was inserted last under each safe name until it is removed; parse results collect all errors in order and are fit for a paragraph only if all steps are; booleans are eight words in any case, with white space around them.",
        forall="all histories of operations on these containers, and all contents",
        why="The tests build one or two of each by hand; that later operations do not disturb what earlier ones stored is a matter of histories.",
        files=["src/tree/element/collection.rs", "src/tree/element/iter_ref.rs", "src/tree/element/iter_owned.rs", "src/tree/element/object.rs", "src/tree/container.rs", "src/tree/bibliography.rs", "src/tree/variables.rs", "src/tree/attribute/mod.rs", "src/parsing/result.rs", "src/parsing/outcome.rs", "src/parsing/boolean.rs", "src/includes/include_ref.rs", "src/data/page_ref.rs"],
        mechanism=[("elements", "src/tree/element/collection.rs"), ("bibliographies", "src/tree/bibliography.rs"), ("scopes", "src/tree/variables.rs"), ("attributes", "src/tree/attribute/mod.rs"), ("results", "src/parsing/result.rs")],
        observe=["Elements", "Element::paragraph_safe", "Bibliography", "BibliographyList", "VariableScopes", "AttributeMap", "ParseSuccess", "ParseOutcome", "parse_boolean"],
        technique="stateful model-based testing: histories of operations against vectors, maps and stacks",
        note="Random exploration of histories of up to a dozen operations with few distinct names, so that they meet.",
    ),
]

NOT_APPLICABLE = []
