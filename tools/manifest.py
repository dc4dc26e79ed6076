#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "src/spex/jsonspec/"
H = "src/spex/htmlspec/"
ST, VT, FG, HP, RI, DC = J + "extractors/structtable.py", J + "extractors/valuetable.py", J + "extractors/figure.py", J + "extractors/helpers.py", J + "rowiter.py", J + "document.py"
EX = "the 23 tests run a handful of hand-written tables and figures"

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=("entities and lint list of the JSON model",), state=()):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
         "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80 and id not in [p["id"] for p in P]
    P.append(d)


prop("C01", "Bit and byte ranges are read as written, bad ones are reported",
     "In the JSON model every row of a bits or bytes table carries the range its range cell states: a single number n as low = high = n, 'high:low' as those two numbers (reported as reversed, R1002, exactly when low exceeds high), "
     "and, below the heading of a list of descriptors, symbolic 'high:low' bounds as text. Any other text is kept unchanged and reported (R1001), and every report names the row it concerns.",
     "all cell texts: digits, separators, white-space, symbolic expressions, empty and malformed text",
     "quantifies over all strings; " + EX, [ST, J + "extractors/regular_expressions.py"],
     [("_parse_range / _parse_dynamic_range / _range_to_row_key", ST), ("RANGE_REGEX, DYN_RANGE", J + "extractors/regular_expressions.py")])
prop("C02", "Overlaps, gaps and wrong row order are reported exactly",
     "For every bits or bytes table in the model, walking the fields in their output order, each adjacent pair of numeric ranges yields one overlap report (T1001) when they intersect, one gap report (T1002) when they leave a hole, and nothing when they are adjacent. "
     "A table in which a field starts below its predecessor yields exactly one wrong-order report (T1004) and no overlap or gap reports. No other overlap, gap or order reports exist.",
     "all sequences of field ranges of any length, numeric, symbolic or textual", "a loop over all sequences of ranges; tests fix three or four rows", [ST],
     [("validate_fields", ST)], over=("inputs", "histories"))
prop("C03", "Duplicate labels and duplicate values are reported exactly",
     "Within one table, a field whose label already occurred is reported once as a duplicate (L1002) naming the field's row and label, and a value that already occurred in a value table is reported once (V1002); reserved and ellipsis rows never count. "
     "No report is made for labels or values which are unique; bits and bytes tables reported as wrongly ordered are not examined for duplicates.",
     "all sequences of labels and values of any length", "quantifies over sequences; tests use tables with one duplicate", [ST, VT],
     [("validate_fields (struct)", ST), ("validate_fields (value)", VT)], over=("inputs", "histories"))
prop("C04", "Every row of a bits/bytes table becomes one field, in order",
     "The fields of a bits or bytes entity correspond one to one, in order, to the logical rows of the source table: bits tables from the lowest bit up and bytes tables in document order, with reserved, obsolete and ellipsis rows represented by their fixed form; headings and notes yield no field. "
     "Each field has the range of the row's first column; no row is lost, repeated or invented.",
     "all tables: number of rows, rows with special or malformed cells, note rows, separator rows, two or three column layouts",
     "quantifies over tables of any length and shape", [ST, FG, J + "queries.py"], [("StructTableExtractor.__call__, is_special_case, handle_special_case", ST), ("BitsTableExtractor.__call__", ST)])
prop("C05", "Every row of a value table becomes one field, in order",
     "The fields of a values entity correspond one to one, in document order, to the logical rows of the source table, each with the text of its value cell, and reserved and ellipsis rows in their fixed form. "
     "A row that lacks its value or content cell fails the figure visibly instead of vanishing.",
     "all value tables: number of rows, missing cells, special rows, two or three column layouts",
     "quantifies over tables of any length and shape", [VT, FG], [("ValueTableExtractor.__call__, val_cleaned, row_err_handler", VT)])
prop("C06", "Field labels are identifiers or reported, and derived deterministically",
     "Every field label in the model is the normalised form of the row's label text (acronym, or text in lower case with separators replaced), and is an identifier (a letter, then letters, digits or underscores) unless it is a reserved, obsolete or ellipsis marker or the same row carries an invalid-label report (L1004). "
     "Labels that are missing, imputed or manually overridden carry the corresponding report, and an override replaces the label of exactly the named row of the named figure of the named document.",
     "all label texts including Unicode, punctuation, digits and empty strings; documents with and without overrides",
     "quantifies over all strings; " + EX, [ST, VT, HP, J + "quirks"], [("_parse_label, _extract_label_*", ST), ("val_extract/label_extract", VT), ("normalize_label, generate_acronym, validate_label, rearrange_num_label", HP)],
     over=("inputs", "configurations"))
prop("C07", "Briefs are taken from the description and never exceed 60 characters",
     "A field's brief is the text which follows the label's colon in its description, without surrounding blanks and final dots; if that is longer than 60 characters its first sentence is used, and if that is too long as well the field has no brief. Nothing is added to the text, and no other text is taken.",
     "all description texts of all lengths", "quantifies over all strings", [ST, VT, HP], [("content_extract_brief", HP), ("_maybe_extract_brief", ST)])
prop("C08", "Row spans mean the same as repeating the cell in every row it spans",
     "Extracting a table in which cells span several rows gives the same fields and reports as extracting the table in which each spanning cell is written out in every row it spans. This holds whatever columns the cells of the other rows span, and also across header rows and rows without own cells.",
     "all regular tables with arbitrary combinations of row spans and column spans", "quantifies over all grids of spans", [RI], [("row_iter and its alst_* helpers", RI)])
prop("C09", "Every figure of the document is accounted for",
     "Every top-level table whose first row carries a figure title either yields an entity with that title and number, or is reported as skipped (T1007), failed (T1000) or lacking a number (T1008); figures appear in document order and tables without title yield nothing. "
     "The table kind follows from the column headings alone, non-standard headings being accepted, normalised and reported (T1006).",
     "all documents: titles, headings, wrapped tables, empty tables", "quantifies over documents; tests use one or two figures", [DC, FG, ST, VT], 
     [("iter_figures, _on_extract_figure_title, _on_extract_figure_id, extract_tbl_headers, _on_parse_fig", DC), ("can_apply, _can_apply", FG)])
prop("C10", "A failing figure is contained, or aborts the run, as the option says",
     "With skip-figure-on-error, a figure that fails to parse is reported once (T1000) and every other figure yields the same entities and reports as it does in a document of its own. Without it, the run fails at the first such figure, after delivering all entities of the figures before it.",
     "all documents, positions and kinds of failing figures, both settings of the option", "quantifies over failure positions and documents", [DC], [("_on_parse_fig", DC), ("row_err_handler", FG)],
     over=("inputs", "fault_sequences", "configurations"))
prop("C11", "Nested tables become separate figures linked to their parent row",
     "Each table inside a data cell yields its own entity whose number is the parent's number plus the row's key, which names its parent figure, and which follows in the order of the parent's rows; the same holds at every depth of nesting. Nested tables are neither lost nor attributed to another row.",
     "all documents with nested tables at any depth", "quantifies over nesting depth and positions", [ST, VT, FG, DC], [("extract_data_sub_table", FG), ("__call__", ST), ("__call__", VT), ("_on_parse_fig", DC)])

exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None

LEVELS = {}
NOTE = ("Deductive: every obligation of the contracts of the functions the property depends on is generated from /repo's current source and must be discharged (z3, cvc5 as second back end), unbounded in rows, strings and iterations. "
        "Trusted: the generator pyvc, its models of str/re/lxml as uninterpreted functions. The composition over the whole second stage and the functions not under contract are checked only on generated documents (bounded, labelled).")
TECH = "executable contracts on the real functions, refinement obligations discharged by z3/cvc5 (own VC generator over /repo's AST); bounded runtime evaluation of the same specification as stand-in"
NA = []


def main():
    import sys
    sys.path.insert(0, HERE)
    import registry
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        if any(n["property"] == p["id"] for n in NA):
            continue
        i = p["id"]
        checks.append({"property": i, "quick_cmd": f"./check.py {i} quick", "thorough_cmd": f"./check.py {i} thorough", "technique": registry.TECH.get(i, TECH),
                       "level": registry.level(i), "level_note": registry.NOTES.get(i, NOTE)})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '.'); import registry\"", "checks": checks, "not_applicable": NA,
         "notes": "check.py <id> [quick|thorough]; see DESIGN.md. Known findings and fixes: known_findings.txt."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
