CM = "plugin/commonmark/"
prop("C01", "Every input is converted: no panic, no hang, no invalid output",
"For every byte string, well-formed HTML or not, and every configuration, a conversion returns without panicking, and neither its time nor its output explodes with the length or nesting of the input. The only errors are those of the HTML parser refusing a too deep nesting. Valid UTF-8 is converted to valid UTF-8.",
"all byte strings up to the size bound, mutated, repeated and deeply nested ones included, and all configurations",
"Crashes and blow-ups sit in unusual trees (empty elements, stray tags, broken bytes, deep nesting); tests only convert sane documents.",
["convert.go", "converter/", CM, "plugin/", "collapse/", "internal/"],
[("conversion pipeline", "converter/convert.go"), ("rendering recursion", "converter/render.go"), ("byte scanning with look-ahead", "internal/escape/, internal/textutils/")],
technique="structure-aware fuzzing: random, mutated, repeated and nested HTML against totality, validity and CPU-time invariants")
prop("C02", "A conversion depends on nothing but its input and configuration",
"Converting a document gives the same result whenever and however it is asked for: again on the same converter, after any other conversions (failed ones included), on a new converter with the same configuration, and through every entry point (string, reader in any pieces, parsed node). A reader's error is returned, the caller's options are not changed, and converting a node of a larger tree takes nothing from the rest of the tree and leaves it as it is.",
"all histories of conversions on one converter, all ways of delivering the input",
"State leaking between conversions shows only for particular sequences of documents; tests use each converter once.",
["convert.go", "converter/"],
[("entry points", "convert.go, converter/convert.go"), ("per-conversion state", "converter/context.go, converter/converter.go")],
over=("histories", "inputs"), technique="stateful property-based testing: random histories of conversions, each compared with the result on a fresh converter")
prop("C03", "Converters may be used from many goroutines at once",
"The package-level functions and a single converter can be used by many goroutines at the same time: each conversion gives the result it gives alone, registering handlers during conversions is safe, and no data race happens.",
"interleavings of conversions and registrations on shared converters",
"A race needs overlapping conversions; the tests run none.",
["convert.go", "converter/", CM, "plugin/table/", "plugin/strikethrough/"],
[("mutex of the registry", "converter/register.go, converter/converter.go"), ("state of a conversion", "converter/context.go")],
over=("schedules", "histories"), technique="property-based concurrency testing: random sets of goroutines under the race detector, results compared with those of a sequential run")
prop("C04", "Text is never mistaken for Markdown syntax",
"In the default (smart) escape mode, text that happens to look like Markdown (delimiters, list markers, headings, fences, HTML tags, links, rules, table rows when tables are enabled, strikethrough when enabled) reads back from the output, with a CommonMark reader, as exactly the same literal text. It does not matter where the text stands: in a paragraph, after a line break, across element borders, inside emphasis, links, headings, list items, quotes or table cells. Text spelling a character reference (such as '&amp;amp;') is the documented exception.",
"all texts over the characters that matter in Markdown, in all contexts, under all delimiter and plugin configurations",
"The tests pin a few hundred strings for individual escape functions; which characters meet at a line start, next to a delimiter or across elements is a product no table of examples covers.",
["escape/", "converter/escape.go", "converter/unescape.go", CM + "", "plugin/strikethrough/", "plugin/table/", "internal/escape/"],
[("escape markers placed on every special character", "converter/escape.go"), ("decision which markers become backslashes", "converter/unescape.go"), ("per-syntax detectors", "plugin/commonmark/commonmark.go, internal/escape/")],
technique="property-based round trip: generated hostile text in drawn contexts, output read back with an independent CommonMark parser (goldmark) and compared literally")
prop("C05", "No content is lost, duplicated, reordered or glued",
"For every HTML document, each piece of visible text appears in the Markdown output exactly once and in document order, text of removed elements (script, style, comments and the like) never appears, and words that stand in different block-level elements, table cells, list items or on both sides of a line break are never glued into one word. Table header rows move to the top and captions to the end of the table; content of a table cell repeated on request (span mirroring) is not counted.",
"all HTML trees, malformed ones included, over the HTML vocabulary, and all configurations",
"The tests convert well-formed samples; arbitrary nestings (lists in links, tables in svg, blocks in inline elements, stray end tags) are only reached by generation.",
["collapse/", "plugin/base/", CM, "plugin/table/", "converter/"],
[("white-space collapsing", "collapse/collapse.go"), ("rendering of elements without a handler of their own", "converter/render.go, plugin/base/base.go"), ("table collection", "plugin/table/2_collect.go"), ("DOM clean-up before rendering", "internal/domutils/, plugin/commonmark/")],
technique="property-based testing: random (also malformed) HTML with unique words; the words and separators expected are read off the parsed tree by an independent model")
prop("C06", "The document structure survives the conversion",
"A document built from paragraphs, headings, nested lists, quotes, code blocks, dividers, emphasis, links, images, line breaks, inline code, and with the plugins tables and strikethrough, converts to Markdown that a CommonMark reader parses back to the same structure: the same blocks in the same nesting and order with the same inline content and marks. This holds for every way of writing the same document in HTML (white space, synonym tags, wrapper elements) and every configuration of delimiters and markers.",
"all documents up to the size bound, all HTML spellings of them, all configurations",
"Golden files pin a handful of documents; whether any two constructs compose (a fence in a quote in a list after a table) is a property over all documents.",
["converter/", CM, "plugin/base/", "plugin/table/", "plugin/strikethrough/", "collapse/"],
[("indentation of list items and prefixes of quotes", "plugin/commonmark/render_list.go, render_blockquote.go"), ("delimiters around inline content", "internal/textutils/"), ("block separation", "converter/, plugin/base/")],
technique="property-based round trip: model document -> drawn HTML spelling -> Markdown -> independent parser -> compare models")
prop("C07", "Code is reproduced verbatim",
"The text of code blocks and of inline code reads back from the output byte for byte (line breaks, indentation, blank lines, backticks, tildes, backslashes and HTML included), only surrounding blank lines of blocks, and line breaks and outer blanks of inline code, may be normalised. The language of a code block is kept when it can be expressed. This holds wherever the code stands (lists, quotes, table cells with the table plugin, after other blocks) and for both fence styles.",
"all code texts, contexts and fence configurations",
"Fence length, padding and indentation depend on the exact run lengths in the code and on the containers; tests check a few of each.",
[CM + "render_code_block.go", CM + "render_code_inline.go", "plugin/base/", "converter/"],
[("fence length", "internal/textutils/, plugin/commonmark/render_code_block.go"), ("markers protecting code lines from trimming", "marker/, plugin/base/")],
technique="property-based round trip through an independent CommonMark parser, code compared byte for byte")
prop("C08", "Headings keep their level and content",
"Every h1 to h6 with content becomes a heading of the same level whose content reads back unchanged, in both heading styles; setext style is used for levels 1 and 2 only, line breaks inside a heading are kept in setext style and become blanks in ATX style. Headings without content disappear without a trace.",
"all heading contents (text that looks like Markdown, inline elements, line breaks, blocks), levels, styles and surroundings",
"Whether the content ends the heading early or changes its level (closing '#', line breaks, underline-like text) depends on arbitrary content.",
[CM + "render_heading.go", "internal/escape/"],
[("heading rendering", "plugin/commonmark/render_heading.go")],
technique="property-based round trip: generated heading content, both styles, read back with an independent parser")
prop("C09", "Links and images keep destination, title, text and alternative text",
"Each link and image of the document reads back from the output with the same destination (up to percent-encoding of the same address), the same title and the same content or alternative text, whatever characters these contain. Links without content or without a destination follow the configured behaviour (keep or skip), and images without a source leave nothing behind.",
"all destinations, titles, alternative texts and link contents, all link configurations",
"Brackets, quotes, backslashes, parentheses, blanks and line breaks in four different positions interact; the tests cover single examples.",
[CM + "render_link.go", CM + "render_image.go", "internal/domutils/", "converter/"],
[("destination encoding", "converter/, internal/assembleurl"), ("title quoting", "plugin/commonmark/")],
technique="property-based round trip of drawn attributes through an independent parser")
prop("C10", "Relative addresses resolve against the given domain",
"With a domain given, every relative link and image address in the output is the address that RFC 3986 resolution against that domain yields (a domain without a scheme counts as http). Without a usable domain, and for absolute addresses, a bare '#', data:, mailto: and similar addresses, the address stays the same up to percent-encoding, the order of query parameters included.",
"all references and base addresses",
"Resolution depends on the combination of base and reference (dot segments, empty parts, queries, ports); the tests check about twenty pairs.",
["converter/", "internal/", CM + "render_link.go", CM + "render_image.go"],
[("address assembly", "converter/ (assemble absolute URL), plugin/commonmark")],
technique="differential testing against an independent RFC 3986 resolver on generated base/reference pairs")
prop("C11", "Lists keep numbering, item order, nesting and separation",
"Every list becomes a Markdown list of the same kind whose items stand in the same order and nesting with the same content, ordered lists start with the number of their start attribute and count upwards, and two lists that follow each other stay two lists (unless the separating comment is switched off). Empty items, white space, comments and removed elements between items make no difference.",
"all lists: nesting, start numbers, lengths, gaps, item contents, markers",
"Indentation depends on the width of the number and on what the item contains; the separation of lists on what stands between them.",
[CM + "render_list.go", CM + "render_comment.go", "internal/domutils/"],
[("numbering and indentation", "plugin/commonmark/render_list.go"), ("separating comment", "internal/domutils/list_end_comment.go"), ("moving misplaced children", "internal/domutils/list_items.go")],
technique="property-based round trip: generated lists read back with an independent CommonMark parser and compared with the model, numbers and markers included")
prop("C12", "The output has a normal form",
"For every input the Markdown has no white space around it, no carriage return, no internal marker character, and, outside of code blocks, never more than one blank line in a row. A hard line break never stands before a blank line.",
"all HTML inputs and configurations",
"Superfluous blank lines come from combinations of empty elements, breaks and blocks.",
["converter/", "plugin/base/", CM + "render_break.go", "internal/textutils/"],
[("trimming of newlines", "internal/textutils/"), ("post rendering", "plugin/base/base.go")],
technique="property-based testing of output invariants over random block, break and blank sequences and random HTML")
prop("C13", "Removed elements leave no trace, and others can be removed or kept",
"Elements that are removed (script, style, head, link, meta, iframe, noscript, input, textarea, comments and every tag registered for removal) influence nothing: the output is the same as without them, wherever they stand and whatever they contain. A tag type registered with an earlier priority decides, so a tag removed by default can be kept and the other way round.",
"all documents, places of insertion, contents of removed elements, and registrations",
"Whether a removed element leaves a blank, a paragraph or a glued word behind depends on where it stands.",
["plugin/base/", "converter/", "collapse/"],
[("removal before rendering", "plugin/base/base.go"), ("tag types", "converter/register.go")],
over=("inputs", "configurations"), technique="metamorphic testing: removed elements inserted at random places of random trees must not change the output")
prop("C14", "Tables keep their grid, alignment, header, spans and caption",
"With the table plugin, a table becomes a Markdown table whose cells stand in the grid that the HTML table has (cells covered by rowspan and colspan included, either empty or mirrored), with the header row, the column alignments, the cell content and the captions of the original. A table that Markdown cannot express (more than one line in a cell, block elements such as lists or headings in a cell, a link or emphasis around it, a role of presentation) does not become a table but is written out as plain content.",
"all tables: sections, header cells, spans, alignments, cell contents, surroundings, options",
"The place of a cell depends on all spans above and left of it; the tests check a few span combinations.",
["plugin/table/"],
[("selection of header and rows", "plugin/table/1_select.go"), ("grid and spans", "plugin/table/2_collect.go, plugin/table/utils.go"), ("fallback conditions", "plugin/table/2_collect.go"), ("output", "plugin/table/3_render.go")],
technique="property-based testing: drawn tables laid out by an independent grid model, compared with what a GFM reader reads")
prop("C15", "Each table option does what it documents and nothing else",
"The options of the table plugin act independently of each other: the padding (aligned, minimal, none) changes only blanks and the length of the delimiter cells; skipping empty rows removes exactly the body rows without content; promotion turns the first row into the header exactly when the header is empty; mirroring only fills spanned cells; presentation tables and line breaks in cells (the content as converted alone, a `<br />` for each newline) are converted exactly when asked for. The defaults are those documented.",
"all tables, all option settings",
"The tests check each option on one table.",
["plugin/table/"],
[("options", "plugin/table/table.go"), ("padding", "plugin/table/3_render.go"), ("empty rows and promotion", "plugin/table/utils.go")],
over=("inputs", "configurations"),
technique="metamorphic testing: the same drawn table under different settings of one option, compared cell by cell and byte by byte")
prop("C16", "Struck text reads back as struck, and nothing else does",
"With the strikethrough plugin, the text of del, s and strike elements (nested, adjacent, around or inside bold, italic, code and links, over several lines) reads back, in a Markdown reader with strikethrough, as struck, and everything outside as not struck. Tildes that are just text never strike and never end a struck text. Without the plugin the same text comes out undecorated.",
"all inline content with struck elements",
"The tests list a handful of fixed snippets; the interplay with the other inline elements is combinatorial.",
["plugin/strikethrough/", "internal/domutils/", "internal/textutils/"],
[("rendering", "plugin/strikethrough/strikethrough.go"), ("merging of adjacent and nested elements", "internal/domutils/"), ("delimiters on every line", "internal/textutils/")],
technique="round trip: structured generator of inline content -> real conversion -> independent GFM reader -> letter by letter comparison of the decorations")
prop("C17", "A syntax option changes exactly the syntax it is for",
"The delimiters, the rule, the bullet, the fence and the list end comment are only spelled differently under another configuration: the output of one configuration turns into that of any other by replacing exactly these pieces of syntax, and any two configurations read back as the same document. What is not configured is as documented (*, **, * * *, -, ```, atx, ~~).",
"all documents, all pairs of configurations",
"The tests check each option on one fixed snippet with the other options at their default.",
["plugin/commonmark/", "plugin/strikethrough/"],
[("options", "plugin/commonmark/options.go, plugin/commonmark/commonmark.go"), ("renderers", "plugin/commonmark/render_*.go")],
over=("inputs", "configurations"),
technique="metamorphic testing: the same drawn document under two drawn configurations, compared after respelling and through an independent Markdown reader")
prop("C18", "An option value is in force or the setup is refused",
"A setup whose options all have documented values (or the empty string for the default) is accepted, whatever the order of the options and plugins and whether these are registered before or later, and its options are in force. A setup with any other value, a plugin that fails or has no name, the commonmark plugin without the base plugin, or nothing that renders, makes every conversion through every entry point fail with an error that says why, and yields no output.",
"all combinations of option values, plugins and registration orders",
"The tests check single invalid values; not which values next to the valid ones are accepted, nor the combinations.",
["plugin/commonmark/validation.go", "plugin/table/table.go", "converter/"],
[("validation", "plugin/commonmark/validation.go"), ("table options", "plugin/table/table.go"), ("errors of plugins", "converter/register.go, converter/convert.go")],
over=("configurations", "histories"),
technique="property-based testing of drawn setups (valid values and near misses) against a model of which are valid and what a probe document has to become")
prop("C19", "Handlers act by priority, then in the order of their registration",
"Whatever history of registrations a converter has (pre-renderers, renderers, renderers for a tag, text transformers, post-renderers, unescapers, escaped characters, tag types, directly or through plugins, before or between conversions), each conversion runs every handler in the order of its priority and, with the same priority, in the order of registration. The first renderer that reports success decides an element, an element nobody handles passes its content through, separated from its surroundings exactly if its tag type is block; a backslash appears exactly where an escaped character is accepted by an unescaper, and never in disabled escape mode.",
"all histories of registrations and conversions on a converter",
"Which handler decides depends on all handlers registered so far; the tests register one or two.",
["converter/"],
[("registration", "converter/register.go"), ("ordering", "converter/prioritized.go"), ("rendering", "converter/render.go, converter/convert.go"), ("escaping", "converter/escape.go")],
over=("histories", "inputs"), technique="stateful model-based testing: random registration histories against a reference interpreter of the handlers",
state=[("handlers", "the registered handlers of each kind with their priority, and the escaped characters", "converter/converter.go")])
prop("C20", "State and context values reach exactly the handlers they belong to",
"What a handler stores in the state is seen by all later handlers of the same conversion (pre-renderers, renderers in document order, post-renderers) and by no other conversion, also when conversions are nested or run in parallel on one converter. A value given with WithValue is seen exactly by the handlers below the nodes rendered with that context; values, cancellation and domain given to a conversion are seen by all of its handlers, and AssembleAbsoluteURL gives a handler the URL a link would get.",
"all documents, nestings and interleavings of conversions",
"It is about every order in which handlers write and read, also across conversions; the tests read back single values.",
["converter/ctx.go", "converter/convert.go", "converter/render.go"],
[("state", "converter/ctx.go (globalState)"), ("context values", "converter/ctx.go (WithValue), converter/render.go"), ("setup of a conversion", "converter/convert.go")],
over=("histories", "inputs", "schedules"),
technique="model-based testing: documents are generated programs of instructions that handlers execute, compared with a reference interpreter",
state=[("state", "the key-value store of one conversion", "converter/ctx.go"), ("context values", "the values along the path from the root to the node being rendered", "converter/ctx.go")])
prop("C21", "With the escaping disabled, text is reproduced exactly as it is",
"With the escape mode disabled, the text of a document appears in the output letter for letter (only < and > become character references, as in smart mode), whatever Markdown it looks like and wherever it stands, while the syntax around it stays what it is for plain words. For text that does not look like Markdown, the two escape modes give the same output, and the smart mode is the default.",
"all documents whose words look like Markdown, in all contexts and configurations",
"Renderers inspect and repair their content at many places (headings, items, links, delimiters); each could touch text that is not to be escaped, and only for particular texts.",
["converter/escape.go", "converter/options.go", "plugin/"],
[("escape mode", "converter/escape.go"), ("renderers that look at their content", "plugin/commonmark/render_*.go")],
over=("inputs", "configurations"),
technique="metamorphic testing: replacing words of a drawn document by hostile texts must replace exactly these words in the output")
prop("C22", "Collapsing removes exactly the white space that is not rendered",
"collapse.Collapse, on any tree and with the default or the caller's own DOM functions (block, void, preformatted elements), changes only the white space of text outside of preformatted elements: all other nodes, their order, attributes and contents stay. Afterwards each text has single blanks only, none at the edges of a block, next to a block or line break or after another blank, and every two words that were separated still are, while no words that were glued become separated; collapsing again changes nothing.",
"all trees, and all classifications of elements as block, void or preformatted",
"Whether a blank is rendered depends on the nodes before and after it across element borders; the tests check some snippets.",
["collapse/"],
[("algorithm", "collapse/collapse.go"), ("classification of elements", "collapse/is_node.go")],
over=("inputs", "configurations"),
technique="property-based testing of random trees with random element classifications against invariants over the words before and after")
prop("C23", "The way the HTML is spelled makes no difference",
"Two HTML sources that mean the same give byte for byte the same Markdown: it does not matter which synonymous element is used (b or strong, i or em, ins and unknown elements or nothing), how the source is indented, broken into lines and blanks between blocks, how characters and attributes are quoted or encoded as references, in which case names are written, which optional tags are left out, nor where comments, empty elements and additional attributes stand.",
"all pairs of spellings of the same document, all configurations",
"The tests convert one spelling of each document; leftovers of white space, wrappers and comments in the output depend on the spelling and its place.",
["collapse/", "converter/", "plugin/"],
[("white-space collapsing", "collapse/collapse.go"), ("synonyms and wrappers", "plugin/commonmark/commonmark.go, plugin/base/base.go"), ("merging and cleaning of the tree", "internal/domutils/")],
technique="metamorphic testing: the same drawn document written in two drawn spellings must give identical output")
prop("C24", "Rendering the Markdown and converting it again changes nothing",
"The Markdown of a document is a fixpoint: when a Markdown reader renders it to HTML, and this HTML is converted with the same configuration, the same Markdown comes out byte for byte, also with text that looks like Markdown, nested lists and quotes, code, tables and strikethrough.",
"all documents over the supported elements, texts that look like Markdown, all configurations",
"An escape that is missing or superfluous, a changed number, blank or delimiter shows up as a difference in the second round only for particular documents; the tests do one round.",
["plugin/", "converter/", "internal/"],
[("rendering", "plugin/commonmark/render_*.go, plugin/table/, plugin/strikethrough/"), ("escaping", "internal/escape/")],
over=("inputs", "configurations"),
technique="round trip: drawn document -> conversion -> HTML by an independent Markdown implementation -> conversion, compared byte for byte")
CLI = "cli/html2markdown/cmd/"
prop("C25", "The command line tool converts exactly like the library",
"For every input and every combination of flags, in any order and spelling, html2markdown prints exactly what the library returns with the corresponding options, and one newline, and nothing to stderr, with exit code 0; with --output the file holds exactly that. It makes no difference whether the input comes from stdin or from a file (which wins over stdin), and when the library fails the tool fails with exit code 1, a message and no output.",
"all inputs, all combinations, orders and spellings of flags",
"The flags are mapped to options one by one, and each mapping is tested with one document only.",
["cli/html2markdown/main.go", CLI],
[("mapping of flags to options", CLI + "cmd_convert.go, " + CLI + "flags.go"), ("reading and writing", CLI + "io_input.go, " + CLI + "io_output.go"), ("order of a run", CLI + "exec.go")],
over=("inputs", "configurations"),
technique="differential testing: the command line tool (in-process and as a program) against the library on generated inputs and flags")
prop("C26", "The selectors include and exclude exactly the elements they match",
"With --include-selector the output is the conversion of the matched elements alone, each once, in document order and with all of its content (a match inside of another match stays at its place); with --exclude-selector it is the conversion of the document without the matched elements, where what matches is decided on the document as it was. Several flags and comma separated selectors add up, and an invalid or empty selector is refused.",
"all documents and selectors",
"Whether removing or moving one match changes another depends on how matches are nested and follow each other; the tests have one flat snippet.",
[CLI],
[("selection", CLI + "cmd_convert.go (includeNodesFromDoc, excludeNodesFromDoc)"), ("parsing of selectors", CLI + "flags.go")],
over=("inputs", "configurations"),
technique="property-based testing: drawn documents and selectors against an independent selector matcher and the library")
prop("C27", "Every input file gets its own output file, and nothing else is touched",
"In every history of commands, a command writes exactly one output per matched input file, in the directory or file asked for (created when missing), with the conversion of the input as it was before the command; inputs of the same name get different, stable names. Without --output-overwrite an existing file is never changed, and with it only the outputs are replaced. Several inputs without an output directory, inputs that match nothing, and outputs that cannot be written make the command fail with exit code 1.",
"all directory contents, patterns, outputs and histories of commands",
"Collisions depend on all names that meet in one directory, also those of earlier outputs; the tests list a few layouts.",
[CLI],
[("globs", CLI + "io_input.go"), ("output names and overwriting", CLI + "io_output.go"), ("order of a run", CLI + "exec.go")],
over=("histories", "inputs"), technique="stateful model-based testing: random histories of commands on random directories against a model of the directory",
state=[("directory", "the files and directories that commands read and write", CLI + "io_output.go")])
prop("C28", "A command line is either carried out or refused with a reason",
"Every command line with an unknown or mistyped flag (the most similar one is suggested), a missing or undocumented value, an unexpected argument, a table option without the table plugin, a flag given twice that allows one value, no input, or an input or output stream that breaks, ends with exit code 1 and a message that names the cause, and leaves stdout and all files alone (a broken stdout aside). Help and version go to stdout with exit code 0, and the help lists every flag.",
"all command lines and stream failures",
"The order in which mistakes are noticed and what has already happened by then depends on the whole command line; the tests have one mistake each.",
["cli/html2markdown/main.go", CLI],
[("flags and their validation", CLI + "flags.go, " + CLI + "flags_categorize.go"), ("errors", CLI + "errors.go, " + CLI + "exec.go"), ("help and version", CLI + "cmd_help.go, " + CLI + "cmd_version.go")],
over=("inputs", "fault_sequences", "configurations"),
technique="model-based testing of generated command lines and injected stream failures against a model of the command line")
prop("C29", "Elements that are kept as HTML stay as they are, wherever they stand",
"An element registered with RenderAsHTML is in the output as its own HTML, with all attributes and its content unescaped and unconverted; with RenderAsHTMLWrapper only its tags are, around the Markdown of its content; and with RenderAsPlaintextWrapper its content stands where the element was. It holds in paragraphs, headings, links, emphasis, lists, quotes and tables alike, and everything around is exactly as if a plain word or paragraph stood there.",
"all documents, kept elements with any attributes and content, at any place",
"A kept element passes through white-space collapsing, escaping, delimiters and line prefixes; the tests keep one element in one paragraph.",
["plugin/base/renderers.go", "converter/register.go", "converter/render.go", "collapse/"],
[("the three renderers", "plugin/base/renderers.go"), ("registration and block or inline", "converter/register.go"), ("escaping of text", "converter/escape.go")],
over=("inputs", "configurations"),
technique="metamorphic testing: a drawn document with kept elements against the same document with unique words in their place")
prop("C30", "The Markdown of a document is put together from the Markdown of its parts",
"The output of a quote is the output of its content with a quote prefix on each line; that of a list is the output of each item after its marker, indented by the width of the marker (ordered markers count up, padded to the same width); and that of a sequence of blocks is their outputs with a blank line in between. The content does not depend on where it stands, how deep it is nested, and what stands before or after it, whatever HTML it is, and parts without output leave nothing behind.",
"all documents composed of quotes, lists, sections and arbitrary HTML, all configurations",
"State that leaks from one part to another, or a prefix that treats some line differently, needs particular contents at a particular nesting; tests check small fixed combinations.",
["plugin/commonmark/render_blockquote.go", "plugin/commonmark/render_list.go", "converter/render.go", "plugin/base/base.go", "internal/textutils/"],
[("prefixing of lines", "internal/textutils/prefix_lines.go, plugin/commonmark/render_blockquote.go"), ("markers and indentation", "plugin/commonmark/render_list.go"), ("joining and trimming", "internal/textutils/consecutive_newlines.go, plugin/base/base.go")],
over=("inputs", "configurations"),
technique="metamorphic (compositional) testing: the output of a drawn nesting of arbitrary parts against the composition of the outputs of the parts")
