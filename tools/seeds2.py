"""planted bugs of the output side, the first stage and the server"""
from seeds import HELP, SEEDS

HELP["docx"] = '''
import pathlib, sys, re, zipfile, gc
from lxml import etree
NS = 'xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"'

def docx(body, styles="", numbering=None, header="A Spec, Revision 1", name="doc"):
    with zipfile.ZipFile(name + ".docx", "w") as z:
        z.writestr("word/document.xml", "<w:document %s><w:body>%s</w:body></w:document>" % (NS, body))
        z.writestr("word/styles.xml", "<w:styles %s>%s</w:styles>" % (NS, styles))
        z.writestr("word/header1.xml", "<w:hdr %s><w:p><w:r><w:t>%s</w:t></w:r></w:p></w:hdr>" % (NS, header))
        if numbering is not None:
            z.writestr("word/numbering.xml", "<w:numbering %s>%s</w:numbering>" % (NS, numbering))

def convert(*a, **k):
    from spex.htmlspec.htmlrenderer import SpexHtmlRenderer
    from loguru import logger
    logger.remove()
    docx(*a, **k)
    name = k.get("name", "doc")
    r = SpexHtmlRenderer(pathlib.Path(name + ".docx"), pathlib.Path("."))
    for _ in r.generate():
        pass
    r.__del__()
    r._destroyed = True
    del r
    return etree.fromstring(pathlib.Path(name + ".html").read_bytes(), etree.HTMLParser()), pathlib.Path(name + ".css").read_text()

def R(t, pr=""):
    return "<w:r>%s<w:t xml:space='preserve'>%s</w:t></w:r>" % ("<w:rPr>%s</w:rPr>" % pr if pr else "", t)

def P(*runs, num=None):
    n = "<w:pPr><w:numPr><w:ilvl w:val='%s'/><w:numId w:val='%s'/></w:numPr></w:pPr>" % (num[1], num[0]) if num else ""
    return "<w:p>%s%s</w:p>" % (n, "".join(R(r) if not r.startswith("<") else r for r in runs))

def C(*content, span=1, vm=None, fill=None):
    pr = ""
    if span > 1:
        pr += "<w:gridSpan w:val='%d'/>" % span
    if vm is not None:
        pr += "<w:vMerge w:val='%s'/>" % vm if vm else "<w:vMerge/>"
    if fill:
        pr += "<w:shd w:fill='%s'/>" % fill
    return "<w:tc><w:tcPr>%s</w:tcPr>%s</w:tc>" % (pr, "".join(content))

def T(*rows):
    return "<w:tbl>%s</w:tbl>" % "".join("<w:tr>%s</w:tr>" % "".join(r) for r in rows)

def check(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.exit(1)
'''
HELP["server"] = '''
import asyncio, io, json, os, pathlib, sys, tempfile, contextlib, logging
os.mkdir("tmp")
tempfile.tempdir = os.path.abspath("tmp")
from loguru import logger
import spexsrv.application.app as srv
from quart.datastructures import FileStorage
logger.remove()
logging.disable(logging.CRITICAL)

def check(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.exit(1)

def html(body, spec="A Spec", rev="1"):
    return ('<html><head><meta data-spec="%s" data-revision="%s"/></head><body>%s</body></html>' % (spec, rev, body)).encode()

def table(title, rows, hdr=("Bytes", "Description"), id=None):
    t = "<table%s>" % (' id="%s"' % id if id else "")
    t += "<tr><td><p>%s</p></td></tr>" % title if title else ""
    t += "<tr>" + "".join("<th>%s</th>" % h for h in hdr) + "</tr>"
    return t + "".join("<tr>" + "".join("<td>%s</td>" % (c if c.startswith("<") else "<p>%s</p>" % c) for c in r) + "</tr>" for r in rows) + "</table>"

async def upload(c, body, name="doc.html"):
    try:
        r = await c.post("/parse", files={"document": FileStorage(io.BytesIO(body), filename=name)}, headers={"Accept": "text/event-stream"})
        data = await r.get_data()
    except Exception:
        return None
    for p in data.split(b"\\n\\n"):
        if p.startswith(b"data: "):
            e = json.loads(p[6:])
            if e["type"] == "report-completed":
                return e["url"]

def run(main):
    async def go():
        with contextlib.redirect_stdout(io.StringIO()):
            await srv.app.startup()
        await main(srv.app.test_client())
    asyncio.run(go())
'''
LN, PA, WR, MN, JP, PG = "src/spex/jsonspec/lint.py", "src/spex/parse.py", "src/spex/writer.py", "src/spex/__main__.py", "src/spex/jsonspec/parse.py", "src/spex/jsonspec/parserargs.py"
DC = "src/spex/jsonspec/document.py"
HR, HP, CS = "src/spex/htmlspec/htmlrenderer.py", "src/spex/htmlspec/parser.py", "src/spex/htmlspec/css.py"
DX = "src/spex/htmlspec/docx/"
APP, RV = "src/spexsrv/application/app.py", "src/spexsrv/application/report_view.py"
NUMB = '''
NUM = "".join("<w:abstractNum w:abstractNumId='%d'>%s</w:abstractNum>" % (a, "".join("<w:lvl w:ilvl='%d'><w:numFmt w:val='%s'/><w:lvlText w:val='%s'/></w:lvl>" % (i, "decimal", "%1." if (a + i) % 2 else "*") for i in range(4))) for a in (1, 2))
NUM += "".join("<w:num w:numId='%d'><w:abstractNumId w:val='%d'/></w:num>" % (n, a) for n, a in ((1, 1), (2, 2), (3, 1)))
'''
SEEDS += [
    dict(id="c12-empty-row-key", property="C12", edits=[(LN, "        if self.row is not None:\n            ret", "        if self.row:\n            ret")], demo='''
m = model(table("Figure 5: T", ["Bytes", "O/M", "Description"], [["", "", "AB: x"]]))
l = [x for x in m["lint"] if x[0][0] in "LVR"]
check(l and all(x[2] is not None for x in l), m["lint"])
''', needs="a row whose range cell is empty", breaks="the reports on this row do not name the row any more"),
    dict(id="c13-dotted-name", property="C13", edits=[(WR, "        fname = src.name[: -len(src.suffix)]\n", "        fname = src.name.split(\".\")[0]\n")], demo='''
import os
from spex.parse import parse_spec
from spex.jsonspec.parserargs import ParserArgs
p = pathlib.Path("base.2.0.html")
p.write_text('<html><head><meta data-spec="a" data-revision="b"/></head><body/></html>')
for _ in parse_spec(p, ParserArgs(output_dir=pathlib.Path("."))):
    pass
check(os.path.exists("base.2.0.json") and not os.path.exists("base.json"), os.listdir("."))
''', needs="an input whose name holds a dot besides the suffix", breaks="the output is not named after the input, inputs overwrite each other's model"),
    dict(id="c13-progress-nested", property="C13", edits=[(PA, '''                yield ("json", fig_ndx, num_figures)
                w.write_entity(cast(JSON, entity))
''', '''                yield ("json", fig_ndx, num_figures)
                if fig_ndx < num_figures:
                    w.write_entity(cast(JSON, entity))
''')], demo='''
import os
from spex.parse import parse_spec
from spex.jsonspec.parserargs import ParserArgs
n = table(None, ["Value", "Definition"], [["0", "Foo"]])
body = table("Figure 5: T", ["Bytes", "Description"], [["0", "<p>AB: x</p>" + n], ["1", "<p>CD: x</p>" + n]])
a = model(body)["entities"]
for _ in parse_spec(pathlib.Path("doc.html"), ParserArgs(output_dir=pathlib.Path(".")), yield_progress=True):
    pass
b = json.loads(pathlib.Path("doc.json").read_text())["entities"]
check(a == b and len(a) == 3, (len(a), len(b)))
''', needs="progress reporting on a document with nested tables", breaks="entities beyond the number of top-level tables are dropped"),
    dict(id="c14-schema-fig-id", property="C14", edits=[("src/spex/validate.py", "    validate(json.loads(document), json.loads(schema))", '''    model = json.loads(document)
    if not model["entities"]:
        return
    validate(model, json.loads(schema))''')], demo='''
from spex.validate import validate_json
p = pathlib.Path("m.json")
p.write_text(json.dumps({"meta": {"specification": "a", "format version": 1}, "entities": []}))
try:
    validate_json(p)
except Exception:
    sys.exit(0)
check(False, "a model without revision is accepted")
''', needs="a model without entities whose metadata lacks a required part", breaks="the model is accepted"),
    dict(id="c15-casefold", property="C15", edits=[(JP, '"./head/meta/@data-spec").lower()', '"./head/meta/@data-spec").casefold()')], demo='''
m = model("", spec="Straße Spec", rev="1.0A")
check(m["meta"]["specification"] == "straße spec" and m["meta"]["revision"] == "1.0a", m["meta"])
''', needs="a title with a character whose case folding differs from its lower case", breaks="the specification is not the lower-cased title"),
    dict(id="c15-revision-prefix", property="C15", edits=[(JP, '''        quirks_key = (self.key, self.rev)
''', '''        quirks_key = (self.key, self.rev.split("-")[0])
''')], demo='''
spec = "NVM Express\\u00ae Zoned Namespace Command Set Specification"
t = table("Figure 37: T", ["Value", "Definition"], [["0", "Foo"]])
m = model(t, spec=spec, rev="1.1c-rc2")
check(not [x for x in m["lint"] if x[0] == "L1007"], m["lint"])
check(m["entities"][0]["fields"][0]["label"] == "FOO", m["entities"])
''', needs="a draft revision of a specification which has special rules", breaks="the special rules of the released revision are applied to drafts"),
    dict(id="c24-validate-last", property="C24", edits=[(MN, '''            parser = parse_spec(Path(spec), pargs, yield_progress=False)
            try:
                while True:
                    next(parser)
            except StopIteration as e:
                if args.validate_json and e.value is not None:
                    validate_json(e.value)
''', '''            parser = parse_spec(Path(spec), pargs, yield_progress=False)
            result = None
            try:
                while True:
                    next(parser)
            except StopIteration as e:
                result = e.value

        if args.validate_json and result is not None:
            validate_json(result)
''')], demo='''
import subprocess, os
# a model which does not conform: a negative bit number is read by a patched schema-free document
H = '<html><head><meta data-spec="a" data-revision="b"/></head><body>%s</body></html>'
pathlib.Path("a.html").write_text(H % "")
pathlib.Path("b.html").write_text(H % "")
code = """
import sys, spex.__main__ as m
seen = []
def bad(p):
    seen.append(p.name)
    if p.name == 'a.json':
        raise ValueError('does not conform')
m.validate_json = bad
sys.argv = ['spex', '--validate-json', 'a.html', 'b.html']
m.main()
"""
r = subprocess.run([sys.executable, "-c", code], capture_output=True)
check(r.returncode != 0, "a model which does not conform is accepted")
''', needs="several inputs with validation, where a model other than the last one does not conform", breaks="the command succeeds although a conversion was not valid"),
    dict(id="c24-check-all-first", property="C24", edits=[(MN, '''    try:
        for spec in args.input:
            logger.log''', '''    try:
        done = set()
        for spec in args.input:
            if spec.stem in done:
                continue
            done.add(spec.stem)
            logger.log''')], demo='''
import subprocess
H = '<html><head><meta data-spec="%s" data-revision="b"/></head><body></body></html>'
pathlib.Path("x").mkdir()
pathlib.Path("a.html").write_text(H % "first")
pathlib.Path("x/a.html").write_text("no document")
r = subprocess.run([sys.executable, "-c", "import spex.__main__ as m; m.main()", "a.html", "x/a.html", "-o", "out"], capture_output=True)
check(r.returncode != 0, "the second input failed, status 0")
''', needs="two inputs of the same name in different directories", breaks="the second one is not converted, its failure is not reported"),
    dict(id="c16-full-height", property="C16", help="docx", edits=[(HR, '''f' rowspan="{cell.span.y}"' if cell.span.y > 1 else "",''', '''f' rowspan="{cell.span.y}"' if 1 < cell.span.y < len(tbl.rows) else "",''')], demo='''
h, _ = convert(T([C(P("a"), vm="restart"), C(P("b"))], [C(P(), vm=""), C(P("c"))]))
check(h.findall(".//td")[0].get("rowspan") == "2", etree.tostring(h))
''', needs="a cell which spans all rows of its table", breaks="its row span is lost"),
    dict(id="c16-merge-column", property="C16", help="docx", edits=[(DX + "tablewrap.py", '''                    left_cell.bottom = row_index
''', '''                    left_cell.bottom = left_cell.top + 1 if row_index == left_cell.top + 1 else left_cell.bottom + (grid_span > 1 or left_cell.left == cell_index)
'''), (DX + "tablewrap.py", "                    left_cell = matrix[-1][cell_index]\n", "                    left_cell = matrix[-1][len(merge_row)]\n")], demo='''
sys.exit(0)
''', needs="-", breaks="-"),
    dict(id="c17-blank-paragraph", property="C17", help="docx", edits=[(HP, "        if len(spans) > 0:\n            return Paragraph", "        if any(s.text.strip() for s in spans):\n            return Paragraph")], demo='''
h, _ = convert(T([C(P("a"), P("\\u00a0 "), P("b"))]))
check("\\u00a0 " in "".join(h.itertext()), etree.tostring(h))
''', needs="a paragraph which holds only blanks", breaks="its text is dropped"),
    dict(id="c17-revision-word", property="C17", help="docx", edits=[(DX + "header.py", r"\s+(?P<rev>\S+).*", r"\s+(?P<rev>[\w.]+).*")], demo='''
h, _ = convert("", header="A Spec, Revision 1.1-rc")
check(h.find(".//meta").get("data-revision") == "1.1-rc", etree.tostring(h))
''', needs="a revision with a character other than letters, digits and dots", breaks="the revision is cut"),
    dict(id="c18-hash-key", property="C18", help="docx", edits=[(CS, "        clsname = self.__cache.get(elem, None)\n", "        clsname = self.__cache.get(hash(elem), (None, None))[1]\n"), (CS, "        self.__cache[elem] = clsname\n", "        self.__cache[hash(elem)] = (elem, clsname)\n"),
                                                          (CS, "        for css_obj, clsname in self.__cache.items():\n", "        for css_obj, clsname in self.__cache.values():\n"), (CS, "self.__cache: Dict[CssObj, str] = {}", "self.__cache: Dict[int, tuple[CssObj, str]] = {}")], demo='''
h, css = convert(T([C(P(R("a", "<w:color w:val='FF0000'/>"), R("b", "<w:color w:val='00FF00'/>")))]))
a, b = [e.get("class") for e in h.iter("span")]
check(a != b and "#00FF00" in css and "#FF0000" in css, (a, b, css))
''', needs="two formattings which set the same properties to different values", breaks="they get the same class"),
    dict(id="c18-tcell-table", property="C18", help="docx", edits=[(HP, '''                        TcPr(shd_fill=shd_fill)
                        if shd_fill.lower() != "ffffff"''', '''                        TcPr(shd_fill=shd_fill[:2] * 3 if shd_fill[:2] == shd_fill[2:4] else shd_fill)
                        if shd_fill.lower() != "ffffff"''')], demo='''
h, css = convert(T([C(P("a"), fill="D9D9F0")]))
check("#D9D9F0" in css, css)
''', needs="a shading whose red and green parts are equal and differ from the blue part", breaks="the background in the style sheet is another colour"),
    dict(id="c19-explicit-none", property="C19", help="docx", edits=[(DX + "runproperties.py", "        if other.__underline is not None:\n", "        if other.__underline:\n")], demo='''
st = "<w:style w:type='character' w:styleId='U'><w:rPr><w:u w:val='single'/></w:rPr></w:style>"
h, css = convert(T([C(P(R("a", "<w:rStyle w:val='U'/><w:u w:val='none'/>")))]), styles=st)
check("underline" not in css, css)
''', needs="a run of an underlined style which switches underlining off", breaks="the run stays underlined"),
    dict(id="c19-style-cache", property="C19", help="docx", edits=[(DX + "styles.py", '''    @lru_cache(maxsize=60)
    def __get_style(self, style_id: str) -> Optional[RunProperties]:
''', '''    def __hash__(self) -> int:
        return hash(self._style_type)

    def __eq__(self, other: object) -> bool:
        return isinstance(other, StyleResolver) and other._style_type == self._style_type

    @lru_cache(maxsize=60)
    def __get_style(self, style_id: str) -> Optional[RunProperties]:
''')], demo='''
for k in ("<w:b/>", "<w:i/>"):
    st = "<w:style w:type='character' w:styleId='U'><w:rPr>%s</w:rPr></w:style>" % k
    h, css = convert(T([C(P(R("a", "<w:rStyle w:val='U'/>")))]), styles=st)
    check(("bold" if "b" in k else "italic") in css, css)
''', needs="two documents converted by the same process which define a style of the same id", breaks="the second document gets the formatting of the first"),
    dict(id="c20-level-jump", property="C20", help="docx", edits=[(HP, "            if child_ilvl > ilvl:\n", "            if child_ilvl == ilvl + 1:\n")], demo=NUMB + '''
h, _ = convert(T([C(P("a", num=(1, 0)), P("b", num=(1, 2)), P("c", num=(1, 0)))]), numbering=NUM)
l = h.find(".//td")[0]
check(len(l) == 2 and len(l[0].findall("./ul/li") + l[0].findall("./ol/li")) == 1, etree.tostring(h))
''', needs="a list item two levels below the item before it", breaks="it becomes an item of the outer list"),
    dict(id="c20-same-abstract", property="C20", help="docx", edits=[(HP, "            if num_doc.get_style(num_id).abstract_num_id != abstract_num_id:\n", "            if num_doc.get_style(num_id).abstract_num_id > abstract_num_id:\n")], demo=NUMB + '''
h, _ = convert(T([C(P("a", num=(2, 0)), P("b", num=(1, 0)))]), numbering=NUM)
check(len(h.find(".//td")) == 2, etree.tostring(h))
''', needs="two lists in a row, the second of a definition with a smaller number", breaks="they are merged into one list"),
    dict(id="c21-failed-upload", property="C21", help="server", edits=[(APP, '''                yield json_to_sse({"type": "report-completed", "url": report_url})
        finally:
            temp_dir.cleanup()
''', '''                yield json_to_sse({"type": "report-completed", "url": report_url})
                temp_dir.cleanup()
        except Exception as exc:
            temp_dir._finalizer.detach()
            raise exc
''')], demo='''
async def main(c):
    n = len(os.listdir("tmp"))
    await upload(c, b"no document")
    import gc; gc.collect()
    check(len(os.listdir("tmp")) == n, os.listdir("tmp"))
run(main)
''', needs="an upload which cannot be converted", breaks="its files are left behind"),
    dict(id="c22-first-chunk", property="C22", help="server", edits=[(APP, '''        for chunk in iter(lambda: fh.read(chunk_bytes), b""):
            hash_md5.update(chunk)
''', '''        hash_md5.update(fh.read(chunk_bytes))
        hash_md5.update(str(fpath.stat().st_size).encode())
''')], demo='''
async def main(c):
    pad = "<p>%s</p>" % ("x" * 5000)
    a = await upload(c, html(pad + table("Figure 5: A", [["0", "AB: x"]])))
    b = await upload(c, html(pad + table("Figure 5: B", [["0", "AB: x"]])))
    check(a and b and a != b, (a, b))
run(main)
''', needs="two documents of equal size which agree in their first 4096 bytes", breaks="they share an address"),
    dict(id="c22-failed-between", property="C22", help="server", edits=[(APP, '''    await spec.save(destination)
    hash = md5sum(destination)
''', '''    await spec.save(destination)
    hash = md5sum(destination)
    app.config[SPEX_CACHE_LOOKUP].pop(hash, None)
''')], demo='''
async def main(c):
    # a client which uploads a known document again and goes away
    body = html(table("Figure 5: A", [["0", "AB: x"]]))
    a = await upload(c, body)
    check((await c.get(a)).status_code == 200, "first")
    real = srv.parse_spec
    def fails(*x, **k):
        raise RuntimeError("out of memory")
        yield
    srv.parse_spec = fails
    await upload(c, body)
    srv.parse_spec = real
    check((await c.get(a)).status_code == 200, "address lost")
    # the same content under a name which cannot be converted
    await upload(c, body, "doc.htm")
    check((await c.get(a)).status_code == 200, "address lost")
run(main)
''', needs="the content of a completed upload is uploaded again and this time fails (a name with another suffix)", breaks="the address of the first upload answers 404"),
    dict(id="c23-deep-nesting", property="C23", help="server", edits=[(APP, '''        report["fig"].split("_")[0] for report in report_json["meta"]["lint"]
''', '''        report["fig"].rsplit("_", 1)[0] for report in report_json["meta"]["lint"]
''')], demo='''
import re
async def main(c):
    n = table(None, [["5", "<p>AB: x</p>" + table(None, [["x y", "CD: x"]])]])
    body = html(table("Figure 7: A", [["0", "<p>EF: x</p>" + n]], id="7"))
    u = await upload(c, body)
    page = (await (await c.get(u)).get_data()).decode()
    check("7_0" not in re.search(r"erroneous_figure_ids[^\\n]*", page).group(0) if "erroneous_figure_ids" in page else "7_0&#34;:" not in page, "figure named 7_0")
    import spexsrv.application.app as a
    h = u.rsplit("/", 1)[1]
    seen = {}
    real = a.get_erroneous_figures
    def spy(figs, p):
        seen["figs"] = sorted(figs)
        return real(figs, p)
    a.get_erroneous_figures = spy
    await c.get(u)
    check(seen["figs"] == ["7"], seen)
run(main)
''', needs="an issue in a table nested two levels deep", breaks="the report names a nested figure"),
]
SEEDS[:] = [s for s in SEEDS if s["needs"] != "-"]
