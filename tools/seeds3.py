"""further planted bugs"""
from seeds import DC, SEEDS, ST
import seeds2  # noqa: F401

MI = "src/spex/jsonspec/quirks/mi.py"
PR, NU, RD, HD = ("src/spex/htmlspec/" + x for x in ("parser.py", "docx/numbering.py", "htmlrenderer.py", "docx/header.py"))
SEEDS += [
    dict(id="c04-dynamic-reset", property="C04", edits=[(ST, '''                    if "List" in colspan and not is_dynamic_table_mode:
                        is_dynamic_table_mode = True
''', '''                    is_dynamic_table_mode = "List" in colspan
''')], demo='''
def rows(mid):
    return ("<table><tr><td colspan='2'>Figure 5: T</td></tr><tr><th>Bytes</th><th>Description</th></tr><tr><td><p>0</p></td><td><p>AB: x</p></td></tr>"
            "<tr><th colspan='2'><p>Descriptor List</p></th></tr><tr><td><p>N+3:N</p></td><td><p>CD: x</p></td></tr>%s<tr><td><p>M+3:M</p></td><td><p>EF: x</p></td></tr></table>" % mid)
a = model(rows(""))
b = model(rows("<tr><th colspan='2'><p>Further entries</p></th></tr>"))
check(len(a["entities"]) == 1 and len(a["entities"][0]["fields"]) == 3, a)
check(a["entities"] == b["entities"] and str(a["err"]) == str(b["err"]), (a, b))
''', needs="a list heading followed, further down in the same table, by another heading row", breaks="the rows below the second heading are read as plain ranges, their figure fails or changes"),
    dict(id="c09-missing-counter", property="C09", edits=[(DC, '''            self.__fig_id_missing_counter = fig_id + 1
''', '''            self.__fig_id_missing_counter += fig_id == 0
''')], demo='''
t = "".join(table("Figures overview", ["Value", "Definition"], [["0", "Foo"]]) for _ in range(4))
m = model(t)
f = [x[1] for x in m["lint"] if x[0] == "T1008"]
check(len(f) == 4 and len(set(f)) == 4, m["lint"])
''', needs="three or more figures without a number in one document", breaks="all but the first are reported under one name, so they cannot be told apart"),
    dict(id="c09-wrapped-rows", property="C09", edits=[(DC, '''            if inner_tbl is not None and inner_tbl.tag == "table":
''', '''            if inner_tbl is not None and inner_tbl.tag == "table" and len(tbl) == 1:
''')], demo='''
inner = table("Figure 5: T", ["Value", "Definition"], [["0", "Foo"]])
for after in ("", "<tr><td><p>see next page</p></td></tr>"):
    m = model("<table><tr><td>%s</td></tr>%s</table>" % (inner, after))
    check([e["fig_id"] for e in m["entities"]] == ["5"] and m["entities"][0]["fields"], (after, m))
''', needs="a figure wrapped in an extra table which has a further row below it", breaks="the figure is read with the wrapping table's rows and is lost"),
    dict(id="c15-second-figure-row", property="C15", edits=[(MI, '''        for extra_fig_row in row.itersiblings():
            extra_fig.append(extra_fig_row)
''', '''        for n, extra_fig_row in enumerate(row.itersiblings()):
            if n == 0 or "reserved" not in XmlUtils.to_text(extra_fig_row).lower():
                extra_fig.append(extra_fig_row)
''')], demo='''
spec = "NVM Express\\u00ae Management Interface Specification"
def doc(x):
    return ("<table><tr><td colspan='2'>Figure 64: A</td></tr><tr><th>Bits</th><th>Description</th></tr><tr><td><p>0</p></td><td><p>AB: x</p></td></tr>"
            "<tr><td colspan='2'>Figure 65: B</td></tr><tr><th>Bits</th><th>Description</th></tr><tr><td><p>7:1</p></td><td><p>%s</p></td></tr><tr><td><p>0</p></td><td><p>EF: y</p></td></tr></table>" % x)
m = model(doc("Reserved"), spec=spec, rev="1.2c")
check([e["fig_id"] for e in m["entities"]] == ["64", "65"] and len(m["entities"][1]["fields"]) == 2, m)
''', needs="the document with the merged figures 64 and 65, whose second figure has a reserved row", breaks="reserved rows of the figure split off by the special rule are dropped"),
    dict(id="c20-num-override", property="C20", help="docx", edits=[(PR, '''            if num_doc.get_style(num_id).abstract_num_id != abstract_num_id:
''', '''            if num_doc.get_style(num_id).abstract_num_id < abstract_num_id:
''')], demo='''
num = ""
for a in (0, 1):
    num += "<w:abstractNum w:abstractNumId='%d'><w:lvl w:ilvl='0'><w:numFmt w:val='%s'/><w:lvlText w:val='%s'/></w:lvl></w:abstractNum>" % (a, ("bullet", "decimal")[a], ("*", "%1.")[a])
num += "<w:num w:numId='1'><w:abstractNumId w:val='0'/></w:num><w:num w:numId='2'><w:abstractNumId w:val='1'/></w:num>"
for first, second in (("1", "2"), ("2", "1")):
    t, _ = convert(T([C(P("a", num=(first, 0)), P("b", num=(second, 0)))]), numbering=num)
    kinds = [e.tag for e in t.iter("ul", "ol")]
    check(kinds == [{"1": "ul", "2": "ol"}[k] for k in (first, second)], (first, kinds))
''', needs="a list directly followed by a list of another kind which is defined after it", breaks="the second list is merged into the first and gets its marker"),
    dict(id="c17-header-runs", property="C17", help="docx", edits=[(HD, '''            e.text for e in Xpath.elems(self._elem, ".//w:t") if e.text is not None
''', '''            e.text.strip() for e in Xpath.elems(self._elem, ".//w:t") if e.text is not None
''')], demo='''
docx(T([C(P("a"))]))
import shutil
with zipfile.ZipFile("doc.docx") as z:
    parts = {n: z.read(n) for n in z.namelist()}
from spex.htmlspec.htmlrenderer import SpexHtmlRenderer
for texts in (("X Spec", ", Revision 2"), ("X ", "Spec, ", "Revision 2"), ("X Spec, Revision", " 2")):
    parts["word/header1.xml"] = ("<w:hdr %s><w:p>%s</w:p></w:hdr>" % (NS, "".join("<w:r><w:t xml:space='preserve'>%s</w:t></w:r>" % t for t in texts))).encode()
    with zipfile.ZipFile("doc.docx", "w") as z:
        for n, d in parts.items():
            z.writestr(n, d)
    r = SpexHtmlRenderer(pathlib.Path("doc.docx"), pathlib.Path("."))
    for _ in r.generate():
        pass
    r.__del__()
    r._destroyed = True
    del r
    t = etree.fromstring(pathlib.Path("doc.html").read_bytes(), etree.HTMLParser())
    got = [(m.get("data-spec"), m.get("data-revision")) for m in t.iter("meta") if m.get("data-spec")]
    check(got == [("X Spec", "2")], (texts, got))
''', needs="a document whose page header is split into several runs at blanks", breaks="the blanks between the runs are lost: the title changes and the revision is not found"),
    dict(id="c22-short-address", property="C22", help="server", edits=[("src/spexsrv/application/app.py", '''    hash = md5sum(destination)
''', '''    hash = md5sum(destination)[:8]
''')], demo='''
import hashlib

async def main(c):
    # two documents whose checksums begin alike
    body = html(table("Figure 5: A", [["0", "AB: x"]]))
    head, tail = body[: -len(b"</body></html>")], b"</body></html>"
    seen = {}
    k = 0
    while True:
        b = head + b"<p>%d</p>" % k + tail
        x = hashlib.md5(b).hexdigest()[:8]
        if x in seen:
            break
        seen[x] = b
        k += 1
    u1 = await upload(c, seen[x])
    u2 = await upload(c, b)
    check(u1 and u2 and u1 != u2, (u1, u2))
    d1 = await (await c.get(u1.replace("report", "html"))).get_data()
    check(d1 == seen[x], "the first address serves another document")
run(main)
''', needs="two documents whose checksums agree in the first eight digits", breaks="both get the same address, which serves the one uploaded last"),
]
