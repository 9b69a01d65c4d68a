# Property texts; executed by props.py.
TECH = "bounded exhaustive exploration of the real code against a reference model"
TECHH = "exhaustive exploration of operation histories on the real code against a reference model"
W = ("The tests parse and compile a few sample files and single strings; the "
     "property quantifies over every document of the format, ")

prop("C01", "Copying, cutting and inserting text conserves every character",
     "While a source file is rewritten piece by piece, every character of the source ends up in the output exactly once and in order, except for pieces explicitly skipped, replaced or removed with their marked section. Removing a marked section removes exactly that section and nothing around it, whatever the nesting and order of operations. Line numbers reported along the way equal one plus the number of newlines passed.",
     ["histories"], "every sequence of copy, skip, add, mark and remove operations up to the bound, on sources with and without Windows newlines",
     "tests run a handful of fixed operation sequences; the effect of an operation depends on the whole history of pointer moves and open sections",
     ["openformats/transcribers.py"],
     [("pointer, chunk list and section markers", "Transcriber in openformats/transcribers.py")],
     "breadth-first explicit-state search over operation histories of the real rewriter, compared with a list model in every state",
     "All reachable states up to the depth bound on 4 small sources; assumes larger sources behave as the small ones do for the same kind of operation.")

prop("C03", "The JSON reader reports every key and value at its exact position",
     "Reading a JSON document yields the same keys, values and nesting as a standard JSON parser, together with the exact position in the file of every key, value and embedded structure. This holds for every spacing, number notation, escape sequence and nesting.",
     ["inputs"], "every JSON tree up to the size bound in every layout, with every kind of scalar",
     W + "all spacings and value kinds, and one wrong offset corrupts a user's file",
     ["openformats/utils/json.py"],
     [("scanner with explicit positions", "DumbJson in openformats/utils/json.py")],
     TECH + " and the standard json module",
     "All documents of the generator within the bound; position oracle comes from the generator, value oracle from the json module.")

prop("C04", "JSON string escaping and unescaping are inverse and always valid JSON",
     "Escaping any text gives a string that, between quotes, is valid JSON and decodes to the original text. Unescaping any valid JSON string gives the text a standard parser gives, and unescaping after escaping is the identity.",
     ["inputs"], "every text up to the length bound over an alphabet with every character class (quotes, backslash, controls, astral, surrogates)",
     "tests check a few strings; the property must hold for each combination of adjacent special characters",
     ["openformats/utils/json.py"],
     [("escape / unescape", "openformats/utils/json.py")],
     TECH, "All strings up to the bound over the alphabet; other characters are assumed to behave like their class representative.")

prop("C05", "Key-value JSON: every string is extracted once and compiles back in place",
     "Parsing a JSON file extracts each non-empty string value once, in file order, under a key that spells its path unambiguously, and ignores all other values. Compiling the unchanged strings reproduces the file byte for byte, and compiling translations changes exactly the string values, leaving every other character as it was. The same holds for plural messages, whose surrounding message text stays in the file.",
     ["inputs"], "every JSON tree up to the size bound, in every layout and newline style, with every translation pattern",
     W + "with every layout, path and value kind",
     [FMT + "json.py", "openformats/utils/json.py", "openformats/strings.py"],
     [("template with placeholders", "JsonHandler.parse/compile in openformats/formats/json.py")],
     TECH, "All documents of the generator within the bound; parse result, template and every compiled file are predicted from the generator alone.")

prop("C06", "Updating a JSON template adds and removes exactly the requested strings",
     "After any sequence of removing strings from a template and adding new ones, the template is valid JSON, still holds every untouched key and value, no longer holds the removed ones and holds each added string once. Parsing and compiling the updated template gives exactly the current set of strings. Removing everything leaves an empty structure rather than damaged text.",
     ["histories"], "every sequence of add and remove operations up to the bound on every small document and layout",
     "tests apply single updates to one or two files; damage depends on the position of the removed entry, its neighbours and earlier updates",
     [FMT + "json.py"],
     [("removal of sections and insertion of entries", "remove_strings_from_template / add_strings_to_template in openformats/formats/json.py")],
     TECHH, "All histories up to the depth bound; contents are compared with a tree model through a standard JSON parser.")

prop("C07", "Structured JSON: strings and their metadata survive parse, compile and update",
     "Each entry of a structured JSON file is extracted with its text, context, developer comment and character limit, whatever the order and layout of its fields. Compiling writes the current text and metadata into the entry, keeps every other field untouched, and compiling unchanged strings reproduces the file. Removing or adding strings affects exactly the entries concerned.",
     ["inputs", "histories"], "every order and combination of entry fields, nesting and layout up to the bound, every metadata change, every update sequence",
     W + "with every order and combination of the fields of an entry",
     [FMT + "json.py"],
     [("recursive compile of payloads", "StructuredJsonHandler in openformats/formats/json.py")],
     TECH, "All documents and updates of the generator within the bound.")

prop("C08", "Chrome messages: messages, descriptions and plurals survive the round trip",
     "Each Chrome message is extracted with its text and description under its name, and nothing else is. Compiling unchanged strings reproduces the file; compiling translations changes only the message texts, and messages without a translation disappear together with their entry, leaving valid JSON.",
     ["inputs"], "every message file up to the size bound, every field order, every subset of missing translations, both supported versions of the format",
     W + "with every field order and every subset of missing translations",
     [FMT + "json.py"],
     [("message extraction and section removal", "ChromeI18nHandler, ChromeI18nHandlerV3 in openformats/formats/json.py")],
     TECH, "All documents of the generator within the bound.")

prop("C09", "ARB: messages and their attributes are paired, compiled and localised",
     "Each ARB message is extracted with the context and description of its attribute entry, wherever that entry stands; attribute entries and empty messages are never translatable. Compiling changes only the messages and the locale field of the file; messages without a translation are removed together with their attributes.",
     ["inputs"], "every ARB file up to the size bound, every order of messages and attributes, every subset of missing translations",
     W + "with every order of messages and attributes",
     [FMT + "json.py"],
     [("two pass extraction, locale replacement", "ArbHandler in openformats/formats/json.py")],
     TECH, "All documents of the generator within the bound.")

prop("C10", "ICU plural messages are split exactly and malformed ones are rejected",
     "A well formed ICU plural message is split into its forms, each with the exact text between its braces, whatever the spacing, the order of the rules and the nested braces. Writing the forms back gives the original message, and the translated message holds exactly the translated forms. A message with unbalanced braces or unknown rules is never silently split into wrong forms.",
     ["inputs"], "every selection and order of rules, every spacing, every pair of form texts, every single-character damage",
     "tests use a few messages; the splitter is a pattern search whose result depends on the text inside the forms",
     ["openformats/utils/icu.py", FMT + "json.py"],
     [("pattern search and validation of the rest", "ICUParser in openformats/utils/icu.py")],
     TECH, "All messages of the generator through four formats; three listed inputs are known findings.")

prop("C11", "Android: strings, arrays and plurals survive parse, compile and translation",
     "Every string, array item and plural of an Android resource file is extracted once, in order, with its name, product, comment and character limit, and nothing marked untranslatable is. Compiling the unchanged strings reproduces the file and compiling translations changes exactly the texts; comments, attributes and other resources stay as they were.",
     ["inputs"], "every sequence of resources up to the bound, in every layout and newline style, with every attribute combination and translation pattern, for both Android handlers",
     W + "with every combination of resources, attributes, comments and layout",
     [FMT + "android.py", FMT + "android_unescaped.py", "openformats/utils/xml.py"],
     [("two passes over the XML tree in step with the stringset", "AndroidHandler.parse/compile in openformats/formats/android.py")],
     TECH, "All documents of the generator within the bound; source, template, stringset and compiled files are predicted from the generator alone.")

prop("C12", "Android: resources without a translation are removed, others are kept",
     "When a target file is compiled, exactly the strings, array items and plurals without a translation disappear, arrays and plurals that lost all of theirs disappear with their tag, and all other resources stay untouched. The language of the root tag follows the target language, and a source file keeps everything.",
     ["inputs"], "every sequence of resources up to the bound, every subset of missing translations, every language option and source flag",
     W + "with every subset of missing translations",
     [FMT + "android.py"],
     [("removal of tags while compiling", "AndroidHandler._compile_* in openformats/formats/android.py")],
     TECH, "All documents and subsets of the generator within the bound; removal is also compared as an XML tree.")

prop("C13", "Android text escaping is reversible and keeps markup intact",
     "Unescaping what was escaped gives back the text a translator wrote, and escaping what was unescaped gives a text Android reads the same. Inline markup, character data sections and protected tags come through unchanged, and the escaped text can always be embedded in the XML file.",
     ["inputs"], "every text up to the length bound over tokens for quotes, backslashes, at-signs, newlines, entities and inline tags, for both Android handlers",
     "tests check single strings; the result depends on how neighbouring special characters combine",
     [FMT + "android.py", FMT + "android_unescaped.py"],
     [("escape / unescape", "openformats/formats/android.py, android_unescaped.py")],
     TECH, "All token sequences up to the bound.")

prop("C14", "Legacy Android: strings, arrays and plurals survive the round trip",
     "The legacy Android format extracts every string, array item and plural once, keeps everything that is not translatable, reproduces the file for unchanged strings, and leaves out only what has no translation.",
     ["inputs"], "every sequence of resources up to the bound, in every layout, with every subset of missing translations",
     W + "with every combination of resources and missing translations",
     [FMT + "beta_android.py"],
     [("pattern based splitting of the file", "BetaAndroidHandler in openformats/formats/beta_android.py")],
     TECH, "All documents of the generator within the bound.")

prop("C15", "The XML reader reports every tag, text and attribute at its exact position",
     "Reading an XML document yields its tags, attributes, texts and tails with the exact positions they have in the file, whatever order they are asked for. A document with unbalanced or damaged tags is reported as a syntax error rather than read as something else.",
     ["inputs", "histories"], "every XML tree up to the size bound in every layout, every order of asking for its parts, every single-character damage",
     "tests read a few trees in one order; values are found lazily and the result must not depend on what was asked before",
     ["openformats/utils/xml.py"],
     [("lazy properties of a tag", "NewDumbXml in openformats/utils/xml.py")],
     "exhaustive exploration of documents and of access histories on the real reader, against the generator's positions",
     "All documents and access orders within the bound; damaged documents are judged against a standard XML parser.")

prop("C16", "Stringsdict: plurals and the sentence around them survive the round trip",
     "Every plural variable of a stringsdict file is extracted with all its forms, and the text around the first variable of a sentence becomes part of its forms, so that no sentence is split. Compiling yields a property list with the same keys, value types and sentences; translations replace exactly the forms, and variables without a translation are left out while everything else stays.",
     ["inputs"], "every sequence of entries up to the bound, every surrounding text, plural rule selection and order, layout and newline style, every subset of missing translations",
     W + "with every surrounding text, variable order and layout",
     [FMT + "stringsdict.py"],
     [("text around the variable moved into the plural forms", "StringsDictHandler._handle_child_pairs/_handle_strings in openformats/formats/stringsdict.py")],
     TECH, "All documents of the generator within the bound; compiled files are compared byte for byte and as property lists.")

prop("C17", "Customizable XML: texts survive parse, compile and translation",
     "Under any choice of tag and attribute names, every base text and every variant inside the sections of a customizable XML file is extracted once, in order, with its key, variant and section; texts outside of sections and other tags are not. Compiling the unchanged strings reproduces the file, translations replace exactly the texts, and a missing translation empties only its own tag. A file that lacks what the format needs is reported as a parse error.",
     ["inputs"], "every sequence of entries up to the bound split into sections at every point, under every naming, layout and newline style, with every subset of missing translations",
     W + "with every arrangement of sections, variants, names and layout",
     [FMT + "customizable_xml.py"],
     [("walk of the XML tree in step with the stringset", "CustomizableXMLHandler in openformats/formats/customizable_xml.py")],
     TECH, "All documents of the generator within the bound.")

prop("C18", "YAML: every text of a document is extracted and the file is reproduced",
     "Every non-empty text of a YAML document is extracted once, in document order, with the key that leads to it, its style, tag and comment; numbers, booleans, dates and binary values are not. Compiling the unchanged strings yields a document with exactly the same data, with all other lines, comments, anchors and layout left as they were, also for language-rooted YAML files.",
     ["inputs"], "every tree of maps, lists and scalars up to the bound, in every scalar style, flow and block layout, indentation and comment placement",
     W + "with every nesting, scalar style and indentation",
     [FMT + "yaml/yaml.py", FMT + "yaml/utils.py", FMT + "yaml/yaml_i18n.py"],
     [("positions of nodes from the YAML loader", "TxYamlLoader in openformats/formats/yaml/utils.py"),
      ("flattening and template", "YamlHandler.parse in openformats/formats/yaml/yaml.py")],
     TECH, "All documents of the generator within the bound; data is compared by an independent load of the compiled file.")

prop("C19", "YAML: any translation is written so that it is read back exactly",
     "Whatever text a translation holds, it is written in a way that a YAML reader gives back exactly that text, as text, in any scalar style (plain, quoted, literal, folded, tagged), in maps, lists and flow collections, in the middle and at the end of the file, and without changing any neighbour.",
     ["inputs"], "every text up to the length bound over YAML's special tokens, in every style, place and indentation",
     "tests write a few translations; whether a text can be written in a style depends on how its special characters combine with the place",
     [FMT + "yaml/yaml.py"],
     [("choice of style and quoting", "YamlHandler._write_styled_literal in openformats/formats/yaml/yaml.py"),
      ("replacement in the template", "YamlHandler._compile_from_template in openformats/formats/yaml/yaml.py")],
     TECH, "All token sequences up to the bound in all styles and places.")

prop("C24", "PO: entries survive parse, compile and translation, bad files are refused",
     "Every entry of a PO or POT file is extracted once, in order, with its key, context, plural forms, flags, occurrences and comments; which text counts as the string follows from whether it is a source file and holds any translations. Inconsistent files (duplicates, mixed or incomplete texts, stray forms) are refused with a parse error and consistent ones are not. Compiling puts exactly the given texts in their entries and keeps everything else, for any number of languages from one template; fuzzy entries and entries without a translation are left out.",
     ["inputs"], "every sequence of entries up to the bound over all kinds of entries, source or target, every text over PO's special tokens as key, text and translation",
     W + "with every combination of entry kinds and special characters",
     [FMT + "po.py"],
     [("two passes over the entries", "PoHandler.parse in openformats/formats/po.py"),
      ("replacement of placeholders entry by entry", "PoHandler.compile in openformats/formats/po.py")],
     TECH, "All files of the generator within the bound; results are compared byte for byte and read back by an independent reader.")

prop("C25", "PO: a synchronised template holds exactly the strings of the stringset",
     "After synchronising a PO template with a stringset, the template holds exactly one entry per string, in the order of the stringset, with its message ids, context, comments, flags and occurrences; entries of other strings are gone and the header is untouched. Compiling it with translations yields exactly those entries with those texts. This holds after every sequence of synchronisations, whether one handler is reused or not.",
     ["histories", "inputs"], "every starting template over the pool, every sequence of synchronisations with every ordered selection of strings up to the depth bound",
     "tests run a few synchronisations; the result depends on what the handler remembers between its two steps and on the order of the strings",
     [FMT + "po.py", "openformats/handlers.py"],
     [("removal followed by addition", "PoHandler.remove_strings_from_template/add_strings_to_template in openformats/formats/po.py"),
      ("order of the two steps", "Handler.sync_template in openformats/handlers.py")],
     "exhaustive exploration of operation histories on the real handler against a reference model",
     "All histories over the pool within the depth bound.",
     state=[("stringset_index", "number of strings already found in the template", "PoHandler in openformats/formats/po.py")])

prop("C26", "PO: a key determines its message ids and message ids their key",
     "The key of an entry is made from its message id and plural message id so that two entries never share a key, and an entry that is rebuilt from its key has exactly the original message ids, whatever colons, backslashes, spaces and newlines they hold.",
     ["inputs"], "every pair of message id and plural message id over colon, backslash, space, newline and a letter up to the length bound",
     "tests try one key; whether a colon separates or is escaped depends on what precedes it",
     [FMT + "po.py"],
     [("escaping and splitting of keys", "PoHandler._escape_key/_split_key_to_msgids in openformats/formats/po.py")],
     TECH, "All pairs within the length bound, through parse, synchronise and compile.")

prop("C27", "SRT: subtitles survive parse, compile and removal, errors name their line",
     "Every subtitle of an SRT file is extracted once with its number as key, its exact text and its normalised timing. Compiling the unchanged strings reproduces the file, translations replace exactly the texts, and subtitles without a translation disappear as a whole while all others stay. A section without number, timing or text, a wrong or repeated number and a wrong timing are refused with the line they are on.",
     ["inputs"], "every sequence of subtitles up to the bound in every spacing, timing form and newline style, every subset of missing translations, every malformed section at every place",
     W + "with every spacing and every subset of missing translations",
     [FMT + "srt.py", "openformats/transcribers.py"],
     [("split into sections by empty lines", "SrtHandler._generate_split_subtitles in openformats/formats/srt.py"),
      ("section removal", "Transcriber.remove_section in openformats/transcribers.py")],
     TECH, "All files of the generator within the bound.")

prop("C28", "VTT: cues survive parse, compile and removal, other blocks are kept",
     "Every cue with text of a WebVTT file is extracted once, in order, with its timing line as key, its exact text and normalised timing; headers, notes, styles, regions and empty cues are kept as they are. Compiling the unchanged strings reproduces the file, translations replace exactly the texts and cues without a translation disappear with their identifier. Files without the header or without any text, and cues with wrong timings, are refused, naming the line.",
     ["inputs"], "every sequence of cues and blocks up to the bound in every spacing, identifier and timing form and newline style, every subset of missing translations, every malformed cue at every place",
     W + "with every order of blocks and cues and every subset of missing translations",
     [FMT + "vtt.py", "openformats/transcribers.py"],
     [("split into sections by empty lines", "VttHandler._generate_split_subtitles in openformats/formats/vtt.py"),
      ("search for the placeholder after the timing", "VttHandler.compile in openformats/formats/vtt.py")],
     TECH, "All files of the generator within the bound, with distinct timings; the line named for timings without minutes is left out because the existing tests pin another one.")

prop("C29", "Plain text: one string per line, everything around it untouched",
     "Every line of a plain text file that is not blank is one string, numbered in order, without its surrounding white space. Compiling the unchanged strings reproduces the file and translations replace exactly the texts, in UNIX and DOS files, with or without a final newline.",
     ["inputs"], "every sequence of lines up to the bound over texts, blank lines, unusual white space and texts that look like placeholders, in both newline styles, every kind of translation",
     W + "and of special white space",
     [FMT + "plaintext.py", "openformats/utils/compilers.py"],
     [("line by line replacement", "PlaintextHandler.parse in openformats/formats/plaintext.py"),
      ("replacement in order", "OrderedCompilerMixin.compile in openformats/utils/compilers.py")],
     TECH, "All files of the generator within the bound.")

prop("C20", "I18n YAML: plurals and the language root survive translation",
     "In a YAML file with a language root, a map of plural forms that includes the form other is one plural string with its key and forms, in block or flow style, nested or in lists, and any other map is not; files without exactly one root are refused with a parse error. Compiling the unchanged strings gives the same data, and the same text where forms stand on lines of their own. Any translation, for any set of plural forms, is written so that a YAML reader gives back exactly those forms and texts under that key, in the style of the source, without changing anything else.",
     ["inputs"], "every sequence of entries up to the bound with every pair of styles of forms, layout, nesting, indentation and newline style, for several sets of plural forms, every translation text up to the bound in every style and place",
     W + "and with the style, place and text of every form",
     [FMT + "yaml/yaml_i18n.py", FMT + "yaml/yaml.py", FMT + "yaml/utils.py"],
     [("which maps are plurals", "I18nYamlHandler.is_pluralized in openformats/formats/yaml/yaml_i18n.py"),
      ("writing of the forms", "I18nYamlHandler._compile_pluralized in openformats/formats/yaml/yaml_i18n.py")],
     TECH, "All documents and translations within the bound, without comments between the forms and tags inside of them, which are dropped; forms on one line are rewritten on several lines (compared as data).")

prop("C21", "YAML files generated without a template hold exactly the chosen entries",
     "When a YAML file is compiled without its template, only from a subset of its strings, a YAML reader finds in the result exactly the source tree restricted to these strings: the same keys with the same types in the same order and nesting, lists whose missing items close up, plural entries with every form, the language as root key where one is set, and every translation unchanged whatever characters it has and whatever style and place it is written in. Reading the result again gives the same styles.",
     ["inputs", "configurations"], "every tree within the bound with every subset of its strings, every text within the bound in every style and place, and every special key",
     "two sample files are generated in full; the property is about every subset of the strings, which changes list positions and which collections exist",
     [FMT + "yaml/utils.py", FMT + "yaml/yaml.py", FMT + "yaml/yaml_representers.py"],
     [("structure rebuilt from keys and flags", "YamlGenerator in openformats/formats/yaml/utils.py"),
      ("styles and tags written", "openformats/formats/yaml/yaml_representers.py")],
     "exhaustive exploration of trees, subsets and texts on the real code against the restricted tree as read by PyYAML",
     "All trees of one and two leaves three levels deep and of three leaves two levels deep in block and flow style, all subsets of strings, texts of up to 2-3 characters from 34; keys that look like list indexes or <number> are ambiguous and excluded.")

prop("C22", "Markdown: every block is extracted once, in place, and the file is reproduced",
     "Parsing a Markdown file never fails. Headings, paragraphs, list items, table cells, quotes, code, HTML, reference texts and footnotes, and the values of its header, are extracted once each, in order; directives, bare numbers, numbered references, header keys and comments are not, even if they hold the same text as a string. Compiling the unchanged strings reproduces the file up to tabs, blank lines and nothing else, and translations land exactly where their text was, in UNIX and DOS files.",
     ["inputs"], "every sequence of Markdown fragments up to the bound, every document made of up to three blocks of every kind with texts that collide, every kind of header",
     W + "and of blocks that follow each other with colliding texts",
     [FMT + "github_markdown.py", "openformats/utils/compilers.py"],
     [("collection of block texts while mistune parses", "TxBlockLexer.parse in openformats/formats/github_markdown.py"),
      ("search for the text in the template", "GithubMarkdownHandler.parse in openformats/formats/github_markdown.py")],
     TECH, "All fragment sequences and block documents within the bound. Quotes of several lines and fenced code inside of lists, repeated footnotes and code that follows a header are outside: the format does not extract them (documented).")

prop("C23", "Markdown v2/JSX: blocks, notes and YAML headers survive translation",
     "In addition to the guarantees for Markdown, up to Unicode compatibility normalisation, [!NOTE] blocks keep the indentation of the place they stand at, and any translation of a header value is written so that reading the compiled file gives the same keys and that translation, whatever the quotes, nesting or flow style of the source value; the strings that are given are never altered.",
     ["inputs"], "every sequence of fragments up to the bound, documents of up to three blocks including notes at every depth, every translation text up to the bound for every style of header value",
     W + "and with every translation text that YAML could misread",
     [FMT + "github_markdown_v2.py", FMT + "markdown_jsx.py", FMT + "github_markdown.py"],
     [("header as YAML", "GithubMarkdownHandlerV2.parse in openformats/formats/github_markdown_v2.py"),
      ("quoting of header values", "GithubMarkdownHandlerV2._should_wrap_in_quotes in openformats/formats/github_markdown_v2.py"),
      ("indentation of notes", "GithubMarkdownHandlerV2._indent_block in openformats/formats/github_markdown_v2.py")],
     TECH, "All documents and translations within the bound; header values in unquoted styles only for translations without outer spaces, quotes or brackets and not starting with a pipe, which the existing tests want written as they are; literal and folded header values are a known finding.")

prop("C30", "DOCX: paragraphs, formatting and links survive translation",
     "Every paragraph of a DOCX file that holds text, wherever it stands, is extracted once, in order, with its runs and links marked, and blank ones are not. Compiling the unchanged strings keeps every text, format and link where it was. Compiling a translation shows exactly its texts, in order, with the formats and URLs it marks, also if it has fewer, more or reordered parts, or moves, drops or changes links; nothing else of the file changes, the result is well-formed, and translations into right to left languages are marked as such.",
     ["inputs"], "every sequence of runs, links, tabs and breaks up to the bound in every paragraph, every kind of translation of its parts, every place of a paragraph and order of the files in the archive",
     W + "and with every way a translation can reorder, split or drop formatted parts",
     [FMT + "docx.py", FMT + "office_open_xml/parser.py"],
     [("parse and compile of a paragraph", "OfficeOpenXmlHandler.parse_paragraph/compile_paragraph in openformats/formats/office_open_xml/parser.py"),
      ("links as relationships", "DocxFile in openformats/formats/docx.py")],
     TECH, "All paragraphs and translations of the generator within the bound, read back by an independent reader. Texts of several spaces and nothing else are a known finding; nested text boxes are outside.")

prop("C31", "PPTX: slides, notes, formatting and links survive translation",
     "In both versions of the format every paragraph with text of the slides, then of their notes, is extracted once, in the order of the slides, with its runs and links marked. Compiling the unchanged strings keeps every text, field, format and link in place, and compiling a translation shows exactly its texts in order with the formats and URLs it marks, however its parts are reordered, split or dropped. Other parts of the presentation do not change and the result is well-formed.",
     ["inputs"], "every sequence of runs, fields, links and breaks up to the bound, every kind of translation, every order and numbering of slides with and without notes, both versions",
     W + "and with every numbering of slides",
     [FMT + "pptx.py", FMT + "office_open_xml/parser.py"],
     [("slides in order of their number", "PptxFile.get_slides in openformats/formats/pptx.py"),
      ("parse and compile of a paragraph", "OfficeOpenXmlHandler in openformats/formats/office_open_xml/parser.py")],
     TECH, "All paragraphs, translations and presentations of the generator within the bound, read back by an independent reader.")

prop("C32", "XLSX: sheet names, cells, links and formulas survive translation",
     "Every sheet name and every cell with text of an XLSX file, plain, rich or inline, is extracted once, in order, with its whole text; numbers, errors and other values are not, and of formulas only the text of links is. Compiling the unchanged strings keeps every value and link, translations appear exactly in the cells and sheets of their text, and in formulas only the link texts and URLs change. References between sheets keep working, all other parts of the file stay as they were and the result is well-formed.",
     ["inputs"], "every kind of cell with every sequence of rich texts up to the bound, with and without links, every arrangement of sheets, tabs and relationships",
     W + "and with every arrangement of sheets and shared strings",
     [FMT + "xlsx_unstructured.py"],
     [("cells and shared strings", "XlsxUnstructuredHandler in openformats/formats/xlsx_unstructured.py")],
     TECH, "All workbooks of the generator within the bound, read back by an independent reader; phonetic texts and cached values of formulas are outside.")

prop("C02", "Newline style: Windows files behave as Unix files and keep their newlines",
     "In every text format, a file with Windows newlines yields the same strings, keys, comments and errors as the same file with Unix newlines. What it is compiled to, with its own strings or with translations, is what the Unix file is compiled to, with Windows newlines throughout.",
     ["inputs"], "every document of every text format up to the bound, unchanged and with translations of one and of several lines",
     W + "and few of the samples have Windows newlines",
     ["openformats/utils/newlines.py", "openformats/transcribers.py", FMT + "json.py", FMT + "yaml/yaml.py", FMT + "srt.py", FMT + "plaintext.py", FMT + "markdown_v2.py"],
     [("newline style remembered per template", "find_newline_type and force_newline_type in openformats/utils/newlines.py"),
      ("source and destination of a file being rewritten", "Transcriber in openformats/transcribers.py")],
     "bounded exhaustive exploration of the real code; each document is compared with its twin of the other newline style",
     "All documents of the corpus generator within the bound in 20 formats. Markdown templates without any newline are a recorded finding and outside.")

prop("C33", "Handlers touch nothing but a scratch folder and leave nothing behind",
     "Whatever a file contains, working on it opens and changes no file outside of a temporary folder of its own (formats of text need none), starts no program and never shows the content of other files. When an operation ends, also by an error of the system at any point, a damaged file or an interruption, its temporary files are gone, the error is reported and the handler works as before. Operations on Office files that overlap get their own results.",
     ["fault_sequences", "crash_points", "inputs"], "every place of an operation at which the system can fail, every size at which the disk is full, every damage of an archive up to the bound and every hostile name or reference up to the bound",
     "tests read well-formed files on a healthy system; the property is about every failure at every place and about files made to do harm",
     [FMT + "docx.py", FMT + "pptx.py", FMT + "xlsx_unstructured.py", FMT + "office_open_xml/parser.py", FMT + "po.py", FMT + "yaml/utils.py"],
     [("temporary folder of an Office file", "DocxFile, PptxFile, XlsxFile in openformats/formats"),
      ("readers that could follow references", "TxYamlLoader in openformats/formats/yaml/utils.py, PoHandler in openformats/formats/po.py")],
     "exhaustive fault injection into the real code: every event of the operating system and of the libraries fails once; a monitor of audit events and of the file system judges every run",
     "Every call of 5 kinds in parse and compile of 4 Office handlers fails once and is interrupted by another operation once, the disk is full after every (quick: seventh) byte, and archives, paths and texts of the generator within the bound. Failing removal of the folder is outside.")

prop("C34", "Handlers remember nothing of the files they worked on before",
     "What a handler makes of a file, by parsing, compiling or synchronising, including the errors it reports, depends on that file and the given strings only. It is the same for a new handler and for one that has handled any other files before, even when it failed on them.",
     ["histories"], "every state a handler can reach by any sequence of operations on the documents of the pool, followed by every operation",
     "tests use a new handler or repeat one or two calls; the property is about every history of operations, including ones that failed half way",
     [FMT + "json.py", FMT + "android.py", FMT + "po.py", FMT + "yaml/yaml.py", FMT + "srt.py", FMT + "vtt.py", FMT + "markdown.py", FMT + "stringsdict.py", "openformats/handlers.py"],
     [("what a handler holds between operations", "the attributes of each Handler in openformats/formats")],
     "explicit-state search over all reachable states of the real handlers; in each state every operation is compared with that of a new handler",
     "All reachable states up to the bound on states per format, from documents of the corpus generator, truncated ones among them.",
     state=[("handler", "all attributes of the handler, in a canonical form", "vp/ops.py canonical()")])

prop("C38", "Damaged files are refused with a parse error and never with a crash",
     "Whatever the content of a file, parsing it either succeeds or fails with a parse error that has a message. If it succeeds, the strings are text and compiling them into the template it gave succeeds too.",
     ["inputs"], "every small damage at every place of every document of the pool, and every sequence of tokens of the format up to the bound",
     "tests check a few selected errors; the property is about every way a file can be damaged at every place",
     [FMT + "json.py", FMT + "android.py", FMT + "beta_android.py", FMT + "stringsdict.py", FMT + "po.py", FMT + "yaml/yaml.py", FMT + "vtt.py", FMT + "srt.py", "openformats/utils/xml.py", "openformats/exceptions.py"],
     [("errors of the readers", "ParseError in openformats/exceptions.py, DumbXml in openformats/utils/xml.py, DumbJson in openformats/utils/json.py")],
     "bounded exhaustive fault injection into documents given to the real code, with a monitor for the kind of every outcome",
     "Every prefix, suffix, deletion, doubling, exchange and token insertion of every document with one unit (thorough: two), and all token sequences up to 3 (thorough: 4).")

prop("C43", "Handlers that work at the same time do not disturb each other",
     "When two handlers of a format, each used by one thread, parse, compile or synchronise different files at the same time, each gets exactly the result it gets alone, whatever the order in which their steps interleave.",
     ["schedules"], "every interleaving with one preemption at any line, and with two preemptions at any pair of function calls, of operations of two handlers",
     "the tests are sequential; state shared by handlers, such as class attributes and module globals, shows only under specific interleavings",
     ["openformats/handlers.py", "openformats/transcribers.py", "openformats/strings.py", FMT + "yaml/utils.py", FMT + "markdown.py", FMT + "json.py", FMT + "po.py"],
     [("state per handler and not per class", "the attributes of each Handler in openformats/formats")],
     "stateless model checking: the real operations run under a controlled scheduler that enumerates all schedules within a preemption bound",
     "All schedules with one preemption at every line of the code (quick: its first two visits) and two preemptions at function calls (quick: the first of every function), for two handlers of each of 20 formats.")

prop("C40", "The testbed service answers as the handlers do and keeps saved work",
     "For every text format, asking the testbed web service to parse a file returns the template and every field of every string that the handler gives, or the error it raises; compiling what was returned, with any of the strings left out or translated, returns the file that the handler makes from the same strings. The sample offered for a format is its sample file. Saved work is found again, unchanged, under the address that saving returned, the same work always under the same address, whatever requests come in between; addresses never given out are unknown.",
     ["inputs", "histories"], "every document of the pool (and damages of it) with every subset of its strings, and every sequence of requests within the bound",
     "the service has no tests; what it hands out passes through JSON and back into new strings, which has to preserve everything that any format depends on",
     ["testbed/main/views.py", "testbed/main/models.py", "testbed/main/urls.py", "openformats/strings.py"],
     [("requests to handlers and back", "ApiView in testbed/main/views.py"),
      ("saved work", "SaveView in testbed/main/views.py, Payload in testbed/main/models.py")],
     TECHH + " through Django's request cycle",
     "All documents of up to two units of 19 formats with all subsets of up to four strings, every fourth damage of documents with one unit, all sequences of four requests out of nine; an in-memory database; binary formats can not be used through JSON.")

prop("C41", "InDesign: every text of a story is found in order and only they change",
     "Every text of an InDesign file that is not blank, a number or only marks is extracted once with its whole text, story after story in the order of the story list. Compiling the unchanged strings keeps everything; translations appear exactly in their places, escaped so that the story stays well-formed, while entities, breaks and special marks in them stay what they are; missing strings become empty. All other parts of the file stay as they were, and what a handler made of earlier files changes nothing.",
     ["inputs"], "every sequence of contents in stories, every arrangement of stories and every sequence of tokens in translations, up to the bound",
     W + "and replaces the reader of archives",
     [FMT + "indesign.py"],
     [("order of stories and contents", "InDesignHandler in openformats/formats/indesign.py"),
      ("escaping of translations", "InDesignHandler in openformats/formats/indesign.py")],
     TECH, "All stories, arrangements and translations of the generator within the bound; the archive library, which is not installed here, is replaced by one of zipfile. Contents with newlines inside and words like nan are outside.")

prop("C44", "Results do not depend on the environment of the process",
     "What files parse and compile to, and the errors they cause, is the same in every environment: whatever the locale and its encoding, the working directory, the temporary folder, the time zone, the seed of hashes, the file mask, the thread, the options of the interpreter and the state of its standard output.",
     ["configurations"], "every combination of two levels of these settings (thorough: every combination), over one pool of documents of every format",
     "tests run in one environment, that of the developer; a default encoding or an assert that is optimised away shows in another one only",
     [FMT + "docx.py", FMT + "pptx.py", FMT + "xlsx_unstructured.py", FMT + "office_open_xml/parser.py", FMT + "indesign.py", FMT + "yaml/utils.py", FMT + "po.py"],
     [("files of an Office archive read and written", "DocxFile, PptxFile, XlsxFile in openformats/formats"),
      ("temporary folder", "tempfile in openformats/formats/docx.py, pptx.py, xlsx_unstructured.py")],
     "exhaustive enumeration of the configuration space (quick: pairwise-complete) with the real code run in each; all observations are compared",
     "All combinations of 9 settings with 2 or 3 levels (quick: every pair of levels), each over documents of 20 formats of text and 5 of archives. Tools not installed and other interpreters are outside.")

prop("C35", "Every string has an identity of its own; the same key twice is refused",
     "Texts with different keys, however these are nested and whatever characters they hold, become strings with different hashes, each with one placeholder, so that a translation stored for one of them appears at its place and nowhere else. A file that holds the same key twice in one place is refused with a parse error.",
     ["inputs"], "every pair and every triple of paths of keys from an alphabet of the characters that formats use to build keys",
     "tests use plain keys; that no two of all possible paths of keys share an identity can only be seen over all pairs of them",
     [FMT + "json.py", FMT + "yaml/yaml.py", FMT + "yaml/utils.py", FMT + "android.py", FMT + "stringsdict.py", FMT + "vtt.py", "openformats/strings.py"],
     [("keys of nested values", "_extract in openformats/formats/json.py, _get_key_for_node in openformats/formats/yaml/yaml.py"),
      ("names, kinds and products", "_create_string in openformats/formats/android.py"),
      ("hash of key and context", "OpenString in openformats/strings.py")],
     TECH, "All pairs and triples of paths within the bound for JSON, structured JSON, Chrome, ARB, YAML with and without language root, Android, legacy Android, stringsdict and VTT. Keys written like the marks of YAML numbers and dots, and repeated names in legacy Android, are recorded findings.")

prop("C39", "Parse errors name the place of the error wherever it is in the file",
     "The line (and character) that a parse error names depends on where the error is: when empty lines or other valid entries are put in front of it, the same error is reported and its place moves by exactly what was added, while places before stay. This holds for every kind of error, also after entries that span several lines, were extracted or were skipped.",
     ["inputs"], "every damage of every document of the pool that is reported with a place, with every insertion in front of it",
     "tests compare the messages of a few errors in short files; the property is about every error after everything that may come before it",
     ["openformats/transcribers.py", "openformats/utils/json.py", "openformats/utils/xml.py", "openformats/utils/xmlutils.py", FMT + "json.py", FMT + "android.py", FMT + "stringsdict.py", FMT + "srt.py", FMT + "vtt.py"],
     [("lines counted while a file is rewritten", "Transcriber.line_number in openformats/transcribers.py"),
      ("lines of the XML reader", "_find_line_number in openformats/utils/xml.py")],
     "bounded exhaustive fault injection into documents given to the real code; each reported place is compared with that of the shifted document",
     "Every prefix, suffix, deletion, doubling, exchange and token insertion of every document with one unit in 15 formats, with empty lines, one and two entries in front.")
