"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

A = "atlas_doc_parser/"
MN = A + "mark_or_node.py"
MH = A + "markdown_helpers.py"

prop("C01", "Parsing and serialising a document loses nothing and adds nothing",
 "For every valid ADF document, node or mark, parsing it and serialising the result gives back exactly the original JSON restricted to the fields the library models: the same values with the same JSON types (null, false, 0, 0.0, empty strings, lists and objects included), in the same order, with no field added. "
 "The serialised form is plain JSON data, and parsing it again gives an object equal to the first one. "
 "The same holds for objects built with the public constructors.",
 ["inputs"], "all valid ADF documents over the 35 node and 16 mark types: every subset of the optional attributes, every JSON value in free-form attributes, any nesting",
 "The tests round-trip about 35 captured samples and compare objects with objects, never the output with the original JSON, so a field that is dropped or changed on the way in is invisible to them; absent, null, falsy and free-form values hardly occur in the samples.",
 [MN, A + "nodes", A + "marks"],
 [("to_dict/from_dict of marks, nodes and attribute classes", MN)],
 ["api.<Class>.from_dict", "api.parse_node", "api.parse_mark", "<object>.to_dict"])

prop("C02", "Unknown fields never change the outcome",
 "Adding fields that the library does not model to any node, mark or attribute object of a valid document, whatever their names and values, never makes parsing fail and never changes the parsed object, its serialised form or its Markdown.",
 ["inputs"], "all valid documents x any set of unmodelled field names (including names that are modelled on other types, Python keywords, dunder and method names) x any JSON values, at any depth",
 "The guarantee is about fields Atlassian has not invented yet; tests can only contain the ones in the captured samples and none compares the outcome with and without them.",
 [MN],
 [("only declared dataclass fields are read", MN + " Base.from_dict")],
 ["from_dict", "to_dict", "to_markdown"])

prop("C03", "Unimplemented types are skipped exactly, with one warning each",
 "A document that contains nodes or marks of unimplemented types parses to the same object as the document with exactly those elements removed, whatever they contain, and never raises because of them. "
 "Each element skipped this way logs one warning that names its type and whether it is a node or a mark, if warnings are enabled in the settings at that moment, and logs nothing otherwise. "
 "Parsing such an element directly raises the unimplemented-type error carrying its type and category.",
 ["inputs", "histories", "configurations"], "all valid documents x any placement of unimplemented nodes and marks (unknown names, wrong case, node names in mark position and the reverse) x any history of switching the warning setting on and off",
 "One sample holds one unimplemented node; no test looks at the log, switches the setting, mixes skipped siblings with valid ones or nests them.",
 [MN, A + "settings.py", A + "exc.py", A + "nodes/parse_node.py", A + "marks/parse_mark.py"],
 [("UnimplementedTypeError caught per child", MN + " BaseNode.from_dict"), ("warning switch", A + "settings.py")],
 ["logger 'atlas_doc_parser'", "from_dict", "parse_node", "parse_mark"],
 [("WARN_UNIMPLEMENTED_TYPE", "whether a skipped element is logged", A + "settings.py")])

prop("C04", "Malformed elements are always reported, never silently dropped",
 "Parsing a document in which any implemented element, at any depth, lacks its type, lacks a required field or required attribute, or is not a JSON object, or whose type is a list or an object, or whose attributes are not a JSON object (null, a number, a boolean, or anything else where an attribute is required), always raises an error, and never returns a document without that element. "
 "When a required field or attribute is missing the error is the parameter error exported by the package, and the same error is raised by a constructor called without it.",
 ["inputs"], "all valid documents x every element in them x every required field of that element removed or replaced, with warnings on or off and with other, skippable elements around it",
 "The tests try a missing attribute on a handful of marks at the top level; the promise is about each of the required fields at every depth, next to the skipping of unimplemented types, which uses the same exception path.",
 [MN, A + "exc.py", A + "nodes", A + "marks"],
 [("REQ defaults checked on construction", A + "nodes, " + A + "marks"), ("other errors propagate", MN + " BaseNode.from_dict")],
 ["from_dict", "parse_node", "parse_mark", "constructors", "api.ParamError"])

prop("C05", "Every element becomes the right typed object, in place",
 "Parsing gives, for every element of the input, exactly one object of the class of its type, in the same position and order, whose typed attribute object holds the given values and marks omitted optional fields as omitted; an element that a constructor builds without a type gets the type of its class, and a document without a version gets version 1. "
 "Type tests on an element answer true exactly for its own type or a list that contains it. "
 "Two parsed objects are equal exactly when their modelled content is equal.",
 ["inputs"], "all valid documents over all types; all type enumeration members and lists of them",
 "The samples exercise each type a few times in a fixed position; nothing checks the class of every child, omitted versus null values, or inequality of documents that differ in one place.",
 [MN, A + "type_enum.py", A + "nodes/parse_node.py", A + "marks/parse_mark.py"],
 [("type registries", A + "nodes/parse_node.py, " + A + "marks/parse_mark.py"), ("type defaults and type tests", A + "type_enum.py")],
 ["parse_node", "parse_mark", "is_type_of", "object attributes", "=="])

prop("C06", "Parsed objects are isolated from the caller's data and immutable",
 "Parsing, serialising and converting never modify the caller's data or the object. "
 "A parsed object, the data it was parsed from and every dictionary it is serialised to share no mutable part: changing one in any way never changes another, nor any later result. "
 "Assigning to or deleting a field of a parsed object raises an error.",
 ["inputs", "histories"], "all valid documents x any sequence of parse, serialise, convert and in-place modification of inputs and outputs at any depth",
 "No test modifies an input or an output after use; sharing shows only in such sequences and, deep in free-form attributes, only for particular shapes.",
 [MN],
 [("deep copies on the way in and out, frozen dataclasses", MN)],
 ["from_dict", "to_dict", "to_markdown"])

prop("C07", "Results depend only on the document",
 "Parsing, serialising and converting a document gives the same result whatever was processed before (including documents that failed, operations that were interrupted, equal identifiers and re-used input objects), however many threads process documents at the same time, also right after import and when one operation runs inside another, and whatever the process environment: hash seed, time zone, locale, working directory, optimisation level.",
 ["histories", "schedules", "configurations"], "all sequences and concurrent interleavings of operations on any documents; all hash seeds, time zones, locales and working directories",
 "Each test runs one operation once in one process with one environment; a cache, a default argument or module state that leaks shows up only across operations, threads or processes.",
 [MN, MH, A + "nodes", A + "marks"],
 [("stateless conversion, only a per-class field cache", MN + " Base.get_fields")],
 ["from_dict", "to_dict", "to_markdown"],
 [("_CLASS_FIELD", "per-class cache of dataclass fields", MN)])

prop("C08", "Every visible piece of text reaches the Markdown once, in order",
 "Converting a valid document to Markdown, every text run, emoji, mention, date, status, link destination, card address, extension key and external or file image reference appears in the output exactly as often as in the document and in document order, in whatever blocks it is nested, also next to elements that render to nothing; only media groups, inline media, captions and expand titles contribute no text, and a link with a title shows the title in place of its text.",
 ["inputs"], "all valid documents: every nesting of the block types, any number of siblings, any combination of marks",
 "Content loss needs a particular neighbour, position or nesting; the tests compare one expected output per node type.",
 [MH, A + "nodes", A + "marks"],
 [("recursive conversion of content", MH)],
 ["to_markdown"])

prop("C09", "Conversion errors: strict by default, lenient skips only what failed",
 "By default, converting a document raises exactly when some element that is rendered cannot be converted, and the error is that of the first such element. "
 "With errors ignored, conversion never raises, and the output is that of the document with just the failing innermost elements removed; when nothing fails it equals the default output. All of this holds for every container converted by itself too. A request to stop the program (an interrupt or exit) during a conversion always gets through.",
 ["inputs", "fault_sequences"], "all valid documents x any set of unconvertible elements (cards without address, external media without address, code with line breaks, bad dates and so on) at any depth and in any container",
 "The error paths are excluded from the tests' coverage; the flag has to reach every container at every depth, which no sample exercises.",
 [MH, A + "nodes"],
 [("ignore_error handed down to every nested conversion", MH + ", " + A + "nodes/node_*_list.py, " + A + "nodes/node_table*.py")],
 ["to_markdown(ignore_error=...)"])

prop("C10", "Markdown keeps the document's sequence of blocks",
 "Read back with a standard Markdown parser, the output of a document or expand section has the same sequence of blocks as its content: headings with their level and text, paragraphs with their text and hard line breaks, rules, code blocks, quotes, lists, task lists, tables, images, cards and extension labels. "
 "No block merges with, ends early in, or swallows a neighbour, except that neighbouring lists of the same kind may join and an empty paragraph leaves nothing.",
 ["inputs"], "all sequences of non-empty blocks, of any length and nested in expand sections, whose text has no Markdown punctuation of its own and no two line breaks in a row",
 "Whether a block stays separate depends on the pair of neighbours; the tests pin single nodes and two documents out of hundreds of pairs and unboundedly many sequences.",
 [MH, A + "nodes/node_doc.py", A + "nodes/node_heading.py", A + "nodes/node_paragraph.py", A + "nodes/node_expand.py", A + "nodes/node_nested_expand.py", A + "nodes/node_rule.py"],
 [("padding and joining of blocks", MH + " doc_content_to_markdown")],
 ["to_markdown", "CommonMark parse of the output"])

prop("C11", "Code is verbatim",
 "Read back with a standard Markdown parser, every code block in the output, at the top level or inside expands, quotes, panels and list items, has exactly the code of the document, character for character (blank lines, indentation, backticks, trailing spaces and Markdown syntax included), and its language label, where the language 'none' or an absent one gives no label. "
 "Inline code likewise contains exactly the text of the run.",
 ["inputs"], "all code texts (any characters a Markdown line may hold, any number of lines and backtick runs) and language labels x all containers; inline code runs not directly adjacent to each other",
 "One sample with ordinary code; fences inside code, blank-line runs and indentation under list items or quotes are unbounded input classes.",
 [A + "nodes/node_code_block.py", A + "marks/mark_code.py", MH, A + "nodes/node_bullet_list.py", A + "nodes/node_ordered_list.py"],
 [("fenced rendering", A + "nodes/node_code_block.py"), ("code spans", A + "marks/mark_code.py")],
 ["to_markdown", "CommonMark parse of the output"])

prop("C12", "Lists keep items, nesting, numbering and check states",
 "Read back with a standard Markdown parser, every bullet, ordered and task list has the same items in the same order with the same content at the same nesting depth, whatever kinds are nested in each other. "
 "An ordered list at the top level starts at its given number (1 if none), a nested one at 1, and each counts up by one per item; a task shows as checked exactly when its state is done. "
 "Each nesting level is indented by four spaces, more only under a number wider than two digits.",
 ["inputs"], "all list trees: any depth and width, all kinds mixed, any start number including 0, non-empty items with several paragraphs, line breaks, code blocks and nested lists",
 "The samples nest each kind in itself, three levels deep, with up to three items starting at 1.",
 [A + "nodes/node_bullet_list.py", A + "nodes/node_ordered_list.py", A + "nodes/node_task_list.py", A + "nodes/node_task_item.py", A + "nodes/node_list_item.py"],
 [("level parameter and indentation", A + "nodes/node_*_list.py")],
 ["to_markdown", "CommonMark parse of the output"])

prop("C13", "Tables keep rows, cells and cell content",
 "Read back with a GFM parser, a table whose first row starts with a header cell has the same number of rows and, in each, the cells of the document in order, with a single delimiter line after the first row that has one entry per cell of that row; without any header cell the output is just one pipe-delimited line per row. "
 "Inside a cell, pipes are escaped, line breaks become line-break tags, leading spaces of a line become non-breaking spaces, and different blocks never share a line, in header and ordinary cells alike.",
 ["inputs"], "all tables: any number of rows and columns, header rows and header columns, empty cells, cells with any blocks, pipes and spaces anywhere",
 "Two samples; pipes, leading spaces, ragged rows, header columns and block mixes in cells are not combined.",
 [A + "nodes/node_table.py", A + "nodes/node_table_row.py", A + "nodes/node_table_cell.py", A + "nodes/node_table_header.py"],
 [("row and cell rendering", A + "nodes/node_table*.py")],
 ["to_markdown", "GFM parse of the output"])

prop("C14", "Quoted content stays in its quote, and nothing else gets in",
 "Every line that a block quote, panel or decision produces carries the quote prefix, so that read back with a standard Markdown parser all blocks inside are in one quote of their own with the same structure as outside, and no neighbouring block is. "
 "A panel starts with its type in bold capitals followed by its content, and each decision of a decision list is a quote of its own with its text: its lines with text in order, at most one empty quoted line between two of them, and none before the second.",
 ["inputs"], "all block quotes, panels and decision lists with any allowed content (lists, code, nested quotes in expands, tables), any neighbours",
 "One or two samples per container; a line that escapes the quote needs a particular content type or line shape.",
 [A + "nodes/node_blockquote.py", A + "nodes/node_panel.py", A + "nodes/node_decision_list.py", A + "nodes/node_decision_item.py", MH],
 [("prefixing of every line", A + "nodes/node_blockquote.py, " + A + "nodes/node_panel.py, " + A + "nodes/node_decision_item.py")],
 ["to_markdown", "CommonMark parse of the output"])

prop("C15", "At most one blank line between blocks",
 "Outside code, the Markdown of a document, an expand section, a block quote or a panel never has two blank lines in a row, nor two empty quoted lines in a row, between its blocks, however many empty paragraphs, headings, rules, expands or elements that render to nothing follow each other. "
 "The collapsing of blank lines removes only blank lines: every other line stays, in order and unchanged.",
 ["inputs"], "all sequences and nestings of blocks, any number of consecutive empty or padded blocks",
 "The number of consecutive blank lines is unbounded; the tests strip the outputs they compare and contain short runs only.",
 [MH, A + "nodes/node_doc.py", A + "nodes/node_panel.py", A + "nodes/node_blockquote.py"],
 [("collapsing of blank lines", MH + " strip_double_empty_line")],
 ["to_markdown"])

prop("C16", "Inline formatting wraps exactly the marked run, marks in order",
 "A text run renders as its text wrapped by its marks from the first to the last: strong in **, emphasis in *, strike-through in ~~, code in backticks with one space inside, link as [text](address) with a non-empty title in place of the text, and all others leave it unchanged, except indentation, which puts its level in tabs in front. "
 "Strong, emphasis, strike-through and code leave a run of only white space as it is. "
 "The rendering of a sequence of inline elements is the concatenation of their own renderings, the same in paragraphs, headings, task and decision items.",
 ["inputs"], "all texts x all sequences of the 16 marks (repeated ones included) x all containers and neighbours",
 "The tests apply each mark alone to one text; order, repetition, white-space-only runs and neighbours are combinations.",
 [MH, A + "marks", A + "nodes/node_text.py", A + "nodes/node_paragraph.py", A + "nodes/node_heading.py"],
 [("marks applied in sequence", MH + " add_style_to_markdown")],
 ["to_markdown"])

prop("C17", "Inline and media atoms render the value they carry",
 "A date renders as the UTC calendar date of its timestamp for every millisecond of years 1 to 9999; an emoji as its text, else its short name; a mention as its text, else @Unknown; a status as its text in backticks; a hard break as two spaces and a line break. "
 "Cards render as a link to their address, an extension as its bracketed key followed by its text, or its type and key if it has no text, and external or file media as an image with its alternative text (else the word media) and its address or identifier; link media as the placeholder [media].",
 ["inputs", "configurations"], "all attribute values, present, absent, null or empty; all timestamps; all time zones",
 "One value each in the tests; date rendering is about a range of 3e14 timestamps with boundaries at every midnight, leap day and sign change.",
 [A + "nodes/node_date.py", A + "nodes/node_emoji.py", A + "nodes/node_mention.py", A + "nodes/node_status.py", A + "nodes/node_inline_card.py", A + "nodes/node_block_card.py", A + "nodes/node_embed_card.py", A + "nodes/node_extension.py", A + "nodes/node_media.py", A + "nodes/node_media_single.py", A + "nodes/node_hard_break.py"],
 [("per-type rendering", A + "nodes")],
 ["to_markdown"])

prop("C18", "The public API is complete and the generator reproduces it",
 "Every node, mark and attribute class of the package is available from the public API module as the very class that parsing produces, and every node and mark class is reachable by parsing its own type. "
 "Running the generator of the API module reproduces the names and objects of the committed module; in a copy of the package, in any folder, with modules or classes added or removed it lists exactly the public model classes (and type aliases) defined there, each once, under the module that defines it.",
 ["programs", "inputs"], "all package trees obtained by adding and removing node and mark modules with public, private, imported and attribute classes",
 "The test of the API module only imports the names it lists; nothing runs the generator, and its inputs are program trees.",
 [A + "api.py", A + "gen_code.py", A + "templates/api.py.jinja", A + "nodes/parse_node.py", A + "marks/parse_mark.py"],
 [("module scan and template", A + "gen_code.py, " + A + "templates/api.py.jinja")],
 ["atlas_doc_parser.api", "generated source"])

prop("C19", "The cost of a document stays polynomial",
 "The work done to parse, serialise or convert a document grows at most linearly with the number of sibling elements and at most quadratically with nesting depth and text length; no nesting of implemented types makes it exponential, and every such operation finishes.",
 ["inputs"], "families of documents growing in depth, width, text length, marks per run, blank-line runs and fences, for every container type",
 "The samples are shallow and small; doubling of work per level is invisible at depth three.",
 [MN, MH, A + "nodes"],
 [("each child converted once", MH + ", " + A + "nodes")],
 ["count of executed calls and lines", "CPU time of text processing"])

prop("C20", "Developer tooling: schema ordering and working directory",
 "The schema analysis lists every definition exactly once, in the same order on every run, each one that does not lead to a dependency cycle after all its dependencies, finds exactly the references, type names and base types of a schema at any depth, and reports exactly these. "
 "The test runner helper always restores the working directory, also when the body fails, and runs exactly the given script or its folder, measuring the given module.",
 ["inputs", "fault_sequences"], "all dependency graphs, all JSON schemas, all bodies that raise or change directory",
 "No test imports the scripts or the runner helper.",
 ["scripts/s01-adf-json-schema-analysis/s2_analyze_adf_json_schema.py", A + "vendor/pytest_cov_helper.py"],
 [("topological sort, reference extraction", "scripts/s01-adf-json-schema-analysis/s2_analyze_adf_json_schema.py"), ("temporary working directory", A + "vendor/pytest_cov_helper.py")],
 ["function results", "os.getcwd"])

prop("C21", "Parsed objects and errors survive copying and pickling",
 "Every parsed or constructed object, and every part of it, survives copy.copy, copy.deepcopy, pickling with every protocol, also into another process that has not loaded the library, and dataclasses.replace: the copy has the same classes, values and unset optional fields, is equal to the original, serialises and converts to the same results, and is as immutable; deep copies and unpickled objects share no mutable part with the original, and replacing a field gives what parsing the changed JSON gives. "
 "Every error the library raises survives copying and pickling with its type, message and attributes, so documents can be processed in process pools.",
 ["inputs", "histories", "configurations"], "all valid documents and their parts, fresh or used before, x all ways of copying, pickle protocols and process start methods; all errors of parsing and converting",
 "No test copies, replaces or pickles anything; unset optional fields are sentinels compared by identity, which copies lose easily.",
 [MN, A + "exc.py"],
 [("plain frozen dataclasses with OPT sentinels", MN), ("errors that rebuild themselves", A + "exc.py")],
 ["copy, pickle and dataclasses.replace of parsed objects", "errors in process pools"])

prop("C22", "Parsing, serialising and converting have no side effects",
 "Parsing, serialising and converting a document, strictly or leniently, whether they succeed or fail and in whatever thread, change nothing outside the objects they return: they open no files, start no processes, threads or connections, write nothing to the standard streams, and leave the environment, working directory, locale, interpreter settings (recursion limit, warning filters, signal handlers, random state, garbage collection), logging configuration, standard library and the settings of the library as they were. "
 "Their only effect is the warnings for unimplemented types, through the logger of the library. Importing the library reads its modules and does nothing else.",
 ["inputs", "histories"], "all documents, valid, failing or with unimplemented types, and all operations on them; imports of the public modules in fresh processes",
 "Tests look at return values; a changed recursion limit, log level or random state is seen only by the program around the library.",
 [MN, MH, A + "logger.py", A + "settings.py", A + "api.py"],
 [("pure functions over frozen objects", MN + ", " + MH), ("the only output channel", A + "logger.py")],
 ["audit events", "snapshots of process state", "standard streams"])

prop("C23", "Memory does not grow with the number of documents processed",
 "Once the results of a document are dropped, its memory is free again: however many different documents a process has parsed, serialised, converted, compared and copied, successfully or not, the memory the library holds stays bounded by a constant, and the parsed objects are collected.",
 ["histories"], "all histories of different documents of every kind (each type, failing, unimplemented types, sub-elements, several threads), of any length",
 "A test process handles some dozens of documents once; a record kept per document, text or type name shows only after thousands.",
 [MN, MH, A + "type_enum.py"],
 [("the only cache is one entry per class", MN + " _CLASS_FIELD")],
 ["allocated blocks after each round of documents", "weak references to parsed objects"],
 [("_CLASS_FIELD", "fields of each class, one entry per class", MN)])

prop("C24", "The outcome depends on the JSON value, not on how it is written or held",
 "Two inputs that are the same JSON value give equal objects, the same serialised form, the same Markdown, the same error and the same warnings: the order of keys, the spelling of the JSON text, whether equal strings or equal parts are one object or several, and whether objects are held in plain, ordered or subclassed dictionaries make no difference.",
 ["inputs"], "all valid, failing and partly unimplemented documents x key orders, spellings, sharing of equal parts and identity of strings, dictionary classes",
 "Fixtures are written once, in one key order, with literals that the interpreter makes identical, so dependence on order or identity is invisible.",
 [MN, A + "type_enum.py", A + "nodes/parse_node.py", A + "marks/parse_mark.py"],
 [("fields are read by name", MN), ("types are compared by value", A + "type_enum.py")],
 ["from_dict", "to_dict", "to_markdown", "log records"])

prop("C25", "Every part is processed independently of its neighbours",
 "Cutting the content of a document, expand, panel, quote, list, table, row, cell, paragraph, heading or task anywhere gives two halves whose Markdown, put together, has the same lines (cells, text) as that of the whole, blank lines, the table's delimiter row and a panel's heading apart and the numbers of an ordered list continued; if a half cannot be converted strictly, the whole raises the error of the first such half. "
 "Likewise an element that is parsed or serialised as part of a document is equal to the same element parsed or serialised alone.",
 ["inputs"], "all valid documents, with arbitrary text, x every container in them x every place to cut it x strict and lenient conversion",
 "Samples show a handful of neighbourhoods out of all pairs of element types, positions and counts, and only with well-behaved text.",
 [MH, A + "nodes"],
 [("children are converted one by one and joined", MH + ", " + A + "nodes")],
 ["to_markdown", "from_dict", "to_dict"])

prop("C26", "New node and mark types can be added by registering a class",
 "A frozen dataclass on BaseNode or BaseMark, with fields that are REQ or OPT and an attributes class on Base, or a subclass of a built-in class, takes part as soon as it is registered under a type name, new or built-in, in NODE_TYPE_TO_CLASS_MAPPING or MARK_TYPE_TO_CLASS_MAPPING: at any depth, elements of that type become objects of exactly that class, attributes, children and marks included, serialise to the modelled part of their JSON, ignore unknown fields, need their required parts (ParamError), cannot be written to and give no warning; all other elements are processed as before. "
 "A node without to_markdown raises NotImplementedError strictly and is left out leniently; what a node's own to_markdown returns stands in its place, called with the ignore_error of the whole conversion; a mark without to_markdown leaves the text unchanged, one with it is applied in its place. Once the name is removed its elements are skipped again, and after another registration the newly registered class is used.",
 ["inputs", "histories"], "all classes written that way, under all type names, in all histories of registering, replacing and removing, x all documents with elements of theirs",
 "Every test uses the built-in classes; adding a type is described in the maintainer guide only.",
 [MN, A + "nodes/parse_node.py", A + "marks/parse_mark.py", MH],
 [("generic parsing by fields and their types", MN), ("registries", A + "nodes/parse_node.py, " + A + "marks/parse_mark.py"), ("conversion of children and marks", MH)],
 ["from_dict", "to_dict", "to_markdown", "log records"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
