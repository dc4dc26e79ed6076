"""Planted bugs (never committed in /repo)."""
HELP = {}
HELP["stage2"] = '''
import json, pathlib, sys, io, contextlib

def model(body, skip=False, spec="X Spec", rev="1", ignore=()):
    from loguru import logger
    from spex.parse import parse_spec
    from spex.jsonspec.parserargs import ParserArgs
    from spex.jsonspec.lint import Code
    logger.remove()
    p = pathlib.Path("doc.html")
    p.write_text('<html><head><meta data-spec="%s" data-revision="%s"/></head><body>%s</body></html>' % (spec, rev, body), encoding="utf-8")
    err = None
    with contextlib.redirect_stderr(io.StringIO()):
        try:
            for _ in parse_spec(p, ParserArgs(output_dir=pathlib.Path("."), skip_fig_on_error=skip, lint_codes_ignore=[Code[c] for c in ignore])):
                pass
        except Exception as e:
            err = e
    m = json.loads(pathlib.Path("doc.json").read_text(encoding="utf-8"))
    return {"entities": m["entities"], "lint": [(x["code"], x["fig"], x.get("row")) for x in m["meta"].get("lint", [])], "err": err, "meta": m["meta"]}

def cell(c):
    if isinstance(c, tuple):
        return "<td %s>%s</td>" % (c[0], c[1] if c[1].startswith("<") else "<p>%s</p>" % c[1])
    return "<td>%s</td>" % (c if c.startswith("<") else "<p>%s</p>" % c)

def table(title, hdr, rows):
    t = "<table>"
    if title is not None:
        t += "<tr><td>%s</td></tr>" % title
    t += "<tr>" + "".join("<th>%s</th>" % h for h in hdr) + "</tr>"
    return t + "".join("<tr>" + "".join(map(cell, r)) + "</tr>" for r in rows) + "</table>"

def ranges(e):
    return [f["range"] for f in e["fields"]]

def check(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.exit(1)
'''
ST, VT, HP, RI, DC, FG = ("src/spex/jsonspec/" + x for x in ("extractors/structtable.py", "extractors/valuetable.py", "extractors/helpers.py", "rowiter.py", "document.py", "extractors/figure.py"))
SEEDS = [
    dict(id="c08-colspan-offset", property="C08", edits=[(RI, '''        for td in Xpath.elems(row, "./td"):
            row_span = int(td.get("rowspan", 1))
            if row_span > 1:
                elem = copy.copy(td)
                # avoid repeatedly processing this elem in subsequent rows
                del elem.attrib["rowspan"]
                alst_insert(alst, column_offset, elem, row_span)
            column_offset += int(td.get("colspan", 1))
''', '''        for column_offset, td in enumerate(Xpath.elems(row, "./td")):
            row_span = int(td.get("rowspan", 1))
            if row_span > 1:
                elem = copy.copy(td)
                # avoid repeatedly processing this elem in subsequent rows
                del elem.attrib["rowspan"]
                alst_insert(alst, column_offset, elem, row_span)
''')], demo='''
hdr = ["Bytes", "Attribute", "Description"]
a = model(table("Figure 1: T", hdr, [[("colspan='2'", "\u2026"), ("rowspan='2'", "shared")], ["1", "CD: x"], ["2", "EF: y", "z"]]))
b = model(table("Figure 1: T", hdr, [[("colspan='2'", "\u2026"), "shared"], ["1", "CD: x", "shared"], ["2", "EF: y", "z"]]))
check(a["entities"] == b["entities"] and str(a["err"]) == str(b["err"]), (a, b))
''', needs="a cell spanning columns before a cell spanning rows in the same row", breaks="the offset of a row-spanning cell ignores column spans to its left, so it is re-inserted in another column"),
    dict(id="c02-gap-after-overlap", property="C02", edits=[(ST, '''                            self.add_issue(
                                LintErr.TBL_FIELD_OVERLAP,
                                row_key=self._range_to_row_key(field_range),
                            )
''', '''                            self.add_issue(
                                LintErr.TBL_FIELD_OVERLAP,
                                row_key=self._range_to_row_key(field_range),
                            )
                            continue
''')], demo='''
m = model(table("Figure 1: T", ["Bytes", "Description"], [["7:0", "A: a"], ["3:2", "B: b"], ["9:8", "C: c"]]))
check(m["lint"] == [("T1001", "1", "2"), ("T1002", "1", "8")], m["lint"])
''', needs="a field which overlaps its predecessor and ends before it, followed by another field", breaks="after an overlap the next field is compared with the field before the overlapping one"),
    dict(id="c10-unwind-flag", property="C10", edits=[(DC, '''        self._unwind_parse_error = False
        fig_id = entity["fig_id"]
''', '''        fig_id = entity["fig_id"]
''')], demo='''
bad = lambda n: table("Figure %d: T" % n, ["Bytes", "Attribute", "Description"], [["0", "a"]])
ok = table("Figure 2: T", ["Bytes", "Description"], [["0", "A: a"]])
m = model(bad(1) + ok + bad(3), skip=True)
check([x for x in m["lint"] if x[0] == "T1000"] == [("T1000", "1", None), ("T1000", "3", None)], m["lint"])
''', needs="skip-figure-on-error and two failing figures in one document", breaks="only the first failing figure of a document is reported"),
    dict(id="c11-two-tables-one-cell", property="C11", edits=[(FG, '''        for tbl in tbls:
            yield from self._parse(entity_base, tbl)
''', '''        for tbl in tbls:
            yield from self._parse(entity_base, tbl)
            entity_base["parent_fig_id"] = entity_base["fig_id"]
''')], demo='''
n = table(None, ["Value", "Definition"], [["0", "Foo"]])
m = model(table("Figure 5: T", ["Bytes", "Description"], [["3:0", "<p>A: a</p>" + n + n]]))
check([(e["fig_id"], e.get("parent_fig_id")) for e in m["entities"]] == [("5_0", "5"), ("5_0", "5"), ("5", None)], m["entities"])
''', needs="two nested tables in the same cell", breaks="the second nested table of a cell names the first as its parent"),
    dict(id="c07-brief-boundary", property="C07", edits=[(HP, '''    if len(brief) <= brief_maxlen:
        return brief
''', '''    if len(brief) < brief_maxlen:
        return brief
''')], demo='''
t = "x" * 29 + ". " + "y" * 29
m = model(table("Figure 5: T", ["Bytes", "Description"], [["3:0", "AB: " + t]]))
check(m["entities"][0]["fields"][0].get("brief") == t, m["entities"])
''', needs="a brief of exactly 60 characters which contains a full stop", breaks="a brief of exactly 60 characters is cut to its first sentence"),
    dict(id="c01-range-blank", property="C01", edits=[("src/spex/jsonspec/extractors/regular_expressions.py", r'''RANGE_REGEX = compile(r"(?P<high>\d+)\s*(:\s*(?P<low>\d+))?")''', r'''RANGE_REGEX = compile(r"(?P<high>\d+) *(: *(?P<low>\d+))?")''')], demo='''
m = model(table("Figure 5: T", ["Bytes", "Description"], [["7\\n:\\n4", "AB: c"]]))
check(ranges(m["entities"][0]) == [{"low": 4, "high": 7}], m["entities"])
''', needs="a line break or tab around the colon of a range", breaks="the lower bound is dropped, the range becomes a single number"),
    dict(id="c05-duplicate-reserved-value", property="C05", edits=[(VT, '''            if val_cleaned == ELLIPSIS:
                fields.append({"val": ELLIPSIS, "label": ELLIPSIS})
                continue
''', '''            if val_cleaned.startswith(ELLIPSIS):
                fields.append({"val": ELLIPSIS, "label": ELLIPSIS})
                continue
''')], demo='''
m = model(table("Figure 5: T", ["Value", "Definition"], [["0h", "Foo"], ["\u2026 to 7h", "Bar"]]))
check([f["val"] for f in m["entities"][0]["fields"]] == ["0h", "\u2026 to 7h"], m["entities"])
''', needs="a value cell which starts with an ellipsis but has further text", breaks="the value and label of such a row are lost"),
    dict(id="c06-override-first-row", property="C06", edits=[(VT, '''            override_key = (self.fig_id, str(val_cleaned))
''', '''            override_key = (self.fig_id.split("_")[0], str(val_cleaned))
''')], demo='''
spec, rev = "NVM Express\u00ae Zoned Namespace Command Set Specification", "1.1c"
n = table(None, ["Value", "Definition"], [["0", "Foo"], ["1", "Bar"]])
m = model(table("Figure 37: T", ["Value", "Definition"], [["8", "<p>Baz</p>" + n]]), spec=spec, rev=rev)
check([f["label"] for f in m["entities"][0]["fields"]] == ["FOO", "BAR"], m["entities"])
check(not [x for x in m["lint"] if x[0] == "L1007"], m["lint"])
''', needs="a document with overrides and a table nested in the overridden figure which has the same values", breaks="the override is applied to rows of nested figures"),
    dict(id="c09-header-blank", property="C09", edits=[(DC, '''            hdr = sub(" +", " ", hdr.replace("\\n", " ").replace("\\r", "")).strip()
''', '''            hdr = sub(" +", " ", hdr.replace("\\n", "").replace("\\r", "")).strip()
''')], demo='''
m = model(table("Figure 5: T", ["Value", "Power\\nScope"], [["0", "Foo"]]))
check([e["type"] for e in m["entities"]] == ["values"] and m["entities"][0]["fields"], m)
m = model(table("Figure 5: T", ["Value", "a", "Power\\nScope"], [["0", "x", "Foo"]]))
check([e["type"] for e in m["entities"]] == ["values"], m)
''', needs="a table of three columns whose heading contains a line break between two words", breaks="the heading is not recognised and the figure is skipped"),
    dict(id="c03-label-set", property="C03", edits=[(ST, '''        labels = {fields[0]["label"]}
        prev_range = field_get_range(fields[0])
''', '''        labels = {fields[0]["label"], OBSOLETE}
        prev_range = field_get_range(fields[0])
''')], demo='''
m = model(table("Figure 5: T", ["Bytes", "Description"], [["0", "AB: x"], ["1", "Obsolete"], ["2", "CD: x"]]))
check(not [x for x in m["lint"] if x[0] == "L1002"], m["lint"])
''', needs="an obsolete row which is not the first row", breaks="the first obsolete row of a table is reported as a duplicate"),
    dict(id="c04-note-row", property="C04", edits=[(ST, '''                elif row_txt.startswith("note"):
                    break
''', '''                elif row_txt.startswith(("note", "list")):
                    break
''')], demo='''
m = model(table("Figure 5: T", ["Bytes", "Description"], [["0", "AB: x"], [("colspan='2'", "Listed below")], ["1", "CD: x"]]))
check(len(m["entities"][0]["fields"]) == 2, m["entities"])
''', needs="a row of one spanning cell which starts with 'list' in the middle of a table", breaks="all rows below such a row are lost"),
]
