LN, PS, WR, MN, PA, VA, SC, PJ, QK = (J + "lint.py", "src/spex/parse.py", "src/spex/writer.py", "src/spex/__main__.py", J + "parserargs.py", "src/spex/validate.py",
                                      "src/spex/resources/stage2.schema.json", J + "parse.py", J + "quirks")
prop("C12", "The lint report is complete, well-formed and filtered only as asked",
     "The lint list of the model holds every issue raised while the document was processed, in the order in which it was raised, except those whose code the user chose to ignore; ignoring codes changes neither the remaining entries nor the entities. "
     "Every entry carries its code, the message of that code, its figure and a context, and codes about labels, values and ranges also name the row.",
     "all documents, all sets of ignored codes, any number of issues", "quantifies over histories of issues and sets of codes; tests look for single issues", [LN, DC, PS],
     [("LintEntry.__post_init__, to_json", LN), ("DocLinter.add_issue, lint_entries", DC), ("parse_spec (filter)", PS)], over=("inputs", "configurations", "histories"))
prop("C13", "The output file is always one complete model of its own input",
     "Converting an HTML model writes exactly one file, named after the input with the suffix .json, into the chosen output directory, replacing an earlier one. After completed and failed runs alike it is a complete JSON object with the metadata written so far and the entities produced so far, in order; text is stored unescaped in UTF-8. "
     "Progress reporting changes nothing and counts each entity once; a completed run also writes the lint report and returns the path of the file.",
     "all documents, file names and failure positions, with and without progress reporting", "quantifies over failure positions and outputs; no test writes a file", [WR, PS],
     [("FileWriter, StdoutWriter, Writer", WR), ("parse_spec, get_writer", PS)], over=("inputs", "fault_sequences", "histories"), observe=("the output directory", "result of parse_spec"))
prop("C14", "Every model conforms to the published schema, and violations are rejected",
     "Every model written by a completed run validates against the published JSON schema, whatever the document contained. Validation rejects models which lack required parts of metadata, entities or fields, or in which these have the wrong type.",
     "all documents; all single defects of a model", "quantifies over all models the extractors can produce", [SC, VA, ST, VT, LN],
     [("stage2.schema.json", SC), ("validate_json", VA), ("fields and entities built by the extractors", ST), ("fields of value tables", VT), ("to_json", LN)], observe=("validate_json",))
prop("C15", "Specification, revision and their quirks come from the document's metadata",
     "Specification and revision in the model are the lower-cased values of the document's metadata, the format version is 1, and the spex version is that of the package. The special rules (label, brief and column overrides) of a document are applied exactly to documents with that specification and revision, "
     "irrespective of capitals and file names, and all other documents are treated by the general rules.",
     "all documents with and without special rules", "quantifies over documents and figures; tests do not use the special rules", [PJ, QK, DC],
     [("html_to_spec_doc, SpecDocument.get_parser", PJ), ("QUIRKS_MAP and the override properties", QK)], over=("inputs", "configurations"))
prop("C24", "The command line reports failure exactly when a conversion failed",
     "spex exits with status 0 exactly when every named input was an HTML model or docx document which was converted (and validated, if asked) without failure; otherwise with a non-zero status. Inputs are processed in order up to the first failing one, into the chosen directory, which is created if missing. "
     "Unknown lint codes and missing input files are usage errors after which no output was written. Lint codes may be given in any case with blanks around them.",
     "all argument lists: input kinds, order, options, failing positions", "quantifies over argument lists and failures; no test runs the command line", [MN, PA, PS],
     [("main, arg_input, arg_output, arg_lintcode", MN), ("ParserArgs", PA)], over=("inputs", "configurations", "fault_sequences"), observe=("exit status", "the output directory"))

D = "src/spex/htmlspec/docx/"
DT, DR, DP, DS, DB, HR, CS, DN, ST_ = D + "tablewrap.py", D + "runproperties.py", H + "parser.py", D + "styles.py", D + "document.py", H + "htmlrenderer.py", H + "css.py", D + "numbering.py", H + "stream.py"
OBS = ("HTML model and style sheet",)
prop("C16", "Merged cells of a docx table become exact HTML spans",
     "Every table of the document becomes one HTML table with the same rows; each cell which is not the continuation of a merged cell appears once, in its row and order, with a column span equal to the grid columns it covers and a row span equal to the number of rows up to the last continuation below it. "
     "The cells tile the grid: no position is covered twice and no row is shorter than the grid.",
     "all tables: any combination of horizontal and vertical merges, nested tables", "quantifies over all grids; tests use no docx", [DT, DP, HR],
     [("TableWrap.grid, GridElement", DT), ("_parse_table", DP), ("_render_table", HR)], observe=OBS)
prop("C17", "The first stage keeps every text, in order, as well-formed HTML",
     "The HTML model is well-formed whatever text the document holds, and contains the text of every paragraph of every table cell unchanged and in document order: all parts of runs, hyperlinks and fields, with breaks and tabs, and nothing else. Title, revision and file name from the document's properties appear unchanged in the head. "
     "A table whose first cell reads \"Figure <number>: ...\" carries that number as its id. Progress reporting counts each table once.",
     "all texts (markup characters, Unicode, blanks, line breaks) and run structures", "quantifies over all texts and run structures", [HR, DP, D + "header.py"],
     [("escape, _render_span, _render_paragraph, generate", HR), ("_select_runs, _parse_spans, _parse_paragraph, find_id", DP), ("Header", D + "header.py")], observe=OBS)
prop("C18", "CSS classes stand for exactly one formatting each",
     "Every class used in the HTML model for text or cell formatting is defined exactly once in the style sheet; equal formatting always gets the same class and different formatting different classes, within and across tables. Unformatted text and cells get no class. The background of a cell in the style sheet is its shading in the document.",
     "all sequences of formattings", "quantifies over histories of the class cache", [CS, HR, DP, DR], [("CssCache, get_clsname, emit_rules", CS)], over=("inputs", "histories"), observe=OBS)
prop("C19", "Text formatting follows the docx rules for styles and on/off values",
     "The formatting of each piece of text is that of its direct run properties over those of its character style, property by property; styles are found by their id or an alias and inherit from the styles they are based on. Properties which are switched on or off by any spelling OOXML permits "
     "(no value, 1/true/on; 0/false/off, none) are on or off in the HTML; absence means inherit, and the colour \"auto\" counts as absent. Paragraph styles and document defaults are by design not applied.",
     "all combinations of properties in run and style, all chains of styles", "quantifies over combinations of levels of formatting and chains of styles", [DS, DR, DB], [("RunProperties: merge, CSS attributes, from_rpr_elem", DR), ("StyleResolver", DS), ("extract_r_rpr", DB)],
     over=("inputs", "configurations"), observe=OBS)
prop("C20", "Lists and cell contents keep their order and nesting",
     "The content of every table cell appears in order as paragraphs, lists and nested tables: consecutive numbered paragraphs form one list, deeper levels form lists inside the item before them, a different list or a plain paragraph ends the list, and no item is lost, repeated or moved. Each level of a list has the kind and marker style of its numbering definition.",
     "all sequences of plain and numbered paragraphs of any level, and nested tables", "quantifies over all sequences of levels", [ST_, DP, DN, HR],
     [("Stream.peek, consume, end", ST_), ("_parse_any, _parse_list, _parse_list_elems", DP), ("AbstractNumLvl, Numbering", DN), ("_render_list", HR)], over=("inputs", "histories"), observe=OBS)

A, RV = "src/spexsrv/application/app.py", "src/spexsrv/application/report_view.py"
OBS = ("HTTP responses", "files on the server")
prop("C21", "Uploads stay within their directory and cannot read local files",
     "Whatever name and content an upload carries, and whatever address is requested, the server creates, changes and removes no file outside the upload's own temporary directory and the server's cache, leaves no file of an upload behind outside the cache once the upload was processed, "
     "and no response or generated model contains content of local files named by the upload or the address.",
     "all file names (relative, absolute, empty, with control characters) and all documents with external entities", "quantifies over hostile names and documents; no test covers the server",
     [A, "src/spex/xml.py", D + "docxutils.py", J + "parse.py", RV], [("spec_parse", A), ("xml_parser", "src/spex/xml.py"), ("open_doc", J + "parse.py"), ("docx_extract_contents", D + "docxutils.py")], observe=OBS)
prop("C22", "A report's address always serves the document it was made of",
     "An upload reports completion exactly when its document was converted without failure. From then on the address it names serves the JSON and HTML models and the report of that content, whatever was uploaded before, at the same time or afterwards, also under the same file name or with failing documents in between. "
     "Equal content has the same address, different content different ones; addresses of no completed upload answer 404.",
     "all histories of uploads, concurrent ones included, and requests", "quantifies over histories and interleavings of uploads", [A], [("spec_parse, md5sum", A), ("report, json_report, html_report", A)],
     over=("inputs", "histories", "schedules"), observe=OBS, state=[("SPEX_CACHE_LOOKUP", "hash of an upload -> its JSON model, next to it the HTML model", A)])
prop("C23", "The report shows exactly the tables of figures with issues",
     "The report of a document shows the entities and lint entries of its JSON model unchanged, names exactly the figures (the part of the number before the first underscore) which have at least one entry, and shows for each of these the first top-level table of the HTML model which carries exactly this number as id, in full, and no other table.",
     "all models: figure numbers of any form, missing and repeated table ids, nested figures", "quantifies over documents and figure numbers", [RV, A], [("get_erroneous_figures", RV), ("report", A)], observe=OBS)
