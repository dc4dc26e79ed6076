"""Runtime contracts of the first stage (docx -> HTML model + CSS), on generated
documents (bounded).  The oracle below is written from the semantics of OOXML
tables, runs, styles and lists, and of HTML tables, not from /repo's code."""
import random
import re
import zipfile

from lxml import etree

from . import gen, real
from .stage2 import J

W = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
ON_OFF = (None, "1", "0", "true", "false", "on", "off")
OFF = ("0", "false", "off")
PROPS = ("b", "i", "strike")
FILLS = (None, None, None, "auto", "BFBFBF", "bfbfbf", "000000", "FFFFFF", "ffffff", "FFC000", "0070C0", "D9D9D9", "A6A6A7")
COLORS = (None, None, "auto", "FF0000", "00b050", "000000")


def w(name):
    return f"{{{W}}}{name}"


# -- generator ------------------------------------------------------------------
TEXTS = ("Reserved", "Bits", "Bytes", "Description", "15:8", "07:00", "Figure 7: Some Structure", "Figure 12: A (b) – c", "a < b && c > d", 'say "it\'s"', "…", "ü\u2013ß", " lead", "trail ",
         "&amp;", "</td>", "]]>", "<p>", "x", "\u00a0", "two  blanks", "0h", "Notes:", "line\nbreak", "tab\tted", "back\\slash", "Figure 3:", "see Figure 4: no", "中文", "\U0001F600")


VOCAB = None


class Gen:
    def __init__(self, rnd, prof):
        self.r, self.p = rnd, prof

    def text(self):
        r = self.r
        if r.random() < 0.1:
            return ""
        if r.random() < 0.12:
            global VOCAB
            VOCAB = VOCAB or gen.code_constants()[0]
            return r.choice(VOCAB)
        return r.choice(TEXTS)

    def rpr(self):
        r = self.r
        if r.random() < 0.35:
            return None
        d = {}
        for k in PROPS:
            if r.random() < 0.35:
                d[k] = r.choice(ON_OFF)
        if r.random() < 0.3:
            d["u"] = r.choice(("single", "none", "double", "words"))
        if r.random() < 0.2:
            d["vertAlign"] = r.choice(("baseline", "subscript", "superscript"))
        if r.random() < 0.2:
            d["color"] = r.choice(COLORS[2:])
        if r.random() < 0.2:
            d["sz"] = r.choice(("20", "18", "21"))
        return d

    def styles(self):
        r = self.r
        out = []
        n = r.randint(0, 5)
        for i in range(n):
            s = {"id": f"S{i}", "type": "character", "rpr": self.rpr(), "aliases": [], "based": None}
            if i and r.random() < 0.6:
                s["based"] = f"S{r.randrange(i)}"
            if r.random() < 0.25:
                s["aliases"] = [r.choice((f"alias {i}", f"S{(i + 1) % n}" if n > 1 else "x", "Char Char"))]
            out.append(s)
        for i in range(r.randint(0, 2)):  # paragraph styles may bear the same ids
            out.append({"id": f"S{i}", "type": "paragraph", "rpr": self.rpr(), "aliases": [], "based": None})
        r.shuffle(out)
        return out

    def run(self, doc):
        r = self.r
        rpr = self.rpr()
        cs = [s["id"] for s in doc["styles"] if s["type"] == "character"]
        if cs and r.random() < 0.4:
            rpr = dict(rpr or {}, rStyle=r.choice(cs))
        parts = [{"t": self.text()} for _ in range(r.choices((0, 1, 2, 3), (1, 10, 2, 1))[0])]
        if r.random() < 0.1:
            parts.insert(r.randint(0, len(parts)), {"br": 1})
        return {"rpr": rpr, "parts": parts}

    def runs(self, doc):
        r = self.r
        out = []
        for _ in range(r.choices((0, 1, 2, 3), (1, 6, 3, 2))[0]):
            k = r.random()
            if k < 0.1:
                out.append({"wrap": r.choice(("hyperlink", "fldSimple")), "runs": [self.run(doc) for _ in range(r.randint(0, 3))]})
            elif k < 0.15:
                out.append({"mark": 1})
            else:
                out.append(self.run(doc))
        return out

    def para(self, doc, lst=None):
        d = {"p": self.runs(doc)}
        if lst is None and self.r.random() < 0.05:
            lst = (self.r.choice(("0", "99")), 0)
        if lst:
            d["num"] = list(lst)
        return d

    def listing(self, doc):
        r = self.r
        out = []
        lvl = r.choice((0, 0, 0, 1))
        num = r.choice(sorted(doc["nums"]))
        for _ in range(r.randint(1, 7)):
            out.append(self.para(doc, (num, lvl)))
            lvl = max(0, min(3, lvl + r.choice((-2, -1, 0, 0, 0, 1, 1, 2))))
            if r.random() < 0.12:
                num = r.choice(sorted(doc["nums"]))
        return out

    def cell_content(self, doc, depth):
        r = self.r
        out = []
        for _ in range(r.choices((0, 1, 2, 3), (1, 6, 3, 1))[0]):
            k = r.random()
            if k < self.p.get("nested", 0.07) and depth < 2:
                out.append({"tbl": self.table(doc, depth + 1)})
            elif k < self.p.get("list", 0.2) and doc["nums"]:
                out += self.listing(doc)
            elif k < 0.3 and k > 0.26:
                out.append({"other": r.choice(("bookmarkStart", "sectPr"))})
            else:
                out.append(self.para(doc))
        return out or [self.para(doc)]

    def table(self, doc, depth=0):
        r = self.r
        cols = r.randint(1, 4)
        n = r.choices((0, 1, 2, 3, 4, 5), (1, 2, 4, 5, 4, 3) if depth == 0 else (1, 4, 3, 1, 0, 0))[0]
        rows, prev = [], []
        for y in range(n):
            row, x = [], 0
            while x < cols:
                above = next((c for c in prev if c["x"] == x), None)
                if above and above["open"] and r.random() < self.p.get("merge", 0.5):
                    row.append({"x": x, "span": above["span"], "vm": r.choice(("", "", "continue")), "open": True, "fill": r.choice(FILLS), "content": [self.para(doc)] if r.random() < 0.2 else [{"p": []}]})
                    x += above["span"]
                    continue
                s = r.choices((1, 2, 3), (8, 2, 1))[0]
                s = min(s, cols - x)
                open_ = r.random() < self.p.get("merge", 0.5) * 0.6
                row.append({"x": x, "span": s, "vm": "restart" if open_ else None, "open": open_, "fill": r.choice(FILLS), "content": self.cell_content(doc, depth)})
                x += s
            rows.append(row)
            prev = row
        if rows and depth == 0 and r.random() < 0.5:
            rows[0][0]["content"].insert(0, {"p": [{"rpr": None, "parts": [{"t": r.choice(("Figure ", "Figure 7", "Figure"))}]}, {"rpr": self.rpr(), "parts": [{"t": r.choice(("7: Structure", "12:", " 8: x", ": y", "4a: z"))}]}]})
        return {"rows": rows}

    def document(self):
        r = self.r
        doc = {"styles": self.styles(), "nums": {}, "abs": [], "tables": []}
        if r.random() < 0.6:
            for a in range(r.randint(1, 3)):
                doc["abs"].append({"id": a * 3 + 1, "lvls": [[r.choice(("decimal", "bullet", "lowerLetter", "lowerRoman", "upperRoman")), r.choice(("%1.", "%1)", "•", "o", "%2.", ""))] for _ in range(4)], "order": r.choice(([0, 1, 2, 3],) * 3 + ([2, 0, 1, 3], [3, 2, 1, 0]))})
            start = r.choice((1, 1, 1, 1, 0))
            for i in range(r.randint(1, 4)):
                doc["nums"][str(i + start)] = r.choice(doc["abs"])["id"]
            doc["numbering"] = True
        else:
            doc["numbering"] = r.random() < 0.3
        doc["header"] = r.choice((
            ["NVM Express", "® Base Specification, Revision 2.0c"], ["My <Spec> & \"co\", Revision 1.0"], ["Spec, revision 3.1 draft"], ["Only a title"],
            ["A", ", ", "B, Revision", " 7"], ["  Padded  , Revision 2"], ["Revision 5"], ["ü’s, Revision 1&2"]))
        doc["name"] = r.choice(("doc", "a b", "x.y", "R&D <1>", "é", "it's"))
        for _ in range(r.randint(1, 3)):
            doc["tables"].append(self.table(doc))
            if r.random() < 0.3:
                doc["tables"].append({"between": self.para(doc)})
        return doc


# -- rendering to docx ------------------------------------------------------------
def el(tag, *kids, **attrs):
    e = etree.Element(w(tag), nsmap={"w": W})
    for k, v in attrs.items():
        e.set(w(k), v)
    for k in kids:
        e.append(k)
    return e


def x_rpr(d):
    e = el("rPr")
    if "rStyle" in d:
        e.append(el("rStyle", val=d["rStyle"]))
    for k in PROPS:
        if k in d:
            e.append(el(k) if d[k] is None else el(k, val=d[k]))
    for k in ("u", "vertAlign", "color", "sz"):
        if d.get(k) is not None:
            e.append(el(k, val=d[k]))
    return e


def x_run(d):
    e = el("r")
    if d["rpr"] is not None:
        e.append(x_rpr(d["rpr"]))
    for p in d["parts"]:
        if "t" in p:
            t = el("t")
            t.text = p["t"] or None
            t.set("{http://www.w3.org/XML/1998/namespace}space", "preserve")
            e.append(t)
        else:
            e.append(el("br"))
    return e


def x_para(d):
    e = el("p")
    if d.get("num"):
        e.append(el("pPr", el("numPr", el("ilvl", val=str(d["num"][1])), el("numId", val=d["num"][0]))))
    for r in d["p"]:
        if "mark" in r:
            e.append(el("bookmarkEnd", id="1"))
        elif "wrap" in r:
            e.append(el(r["wrap"], *[x_run(k) for k in r["runs"]]))
        else:
            e.append(x_run(r))
    return e


def x_table(t):
    e = el("tbl", el("tblPr"))
    for row in t["rows"]:
        tr = el("tr")
        for c in row:
            pr = el("tcPr")
            if c["span"] > 1:
                pr.append(el("gridSpan", val=str(c["span"])))
            if c["vm"] is not None:
                pr.append(el("vMerge", val=c["vm"]) if c["vm"] else el("vMerge"))
            if c["fill"]:
                pr.append(el("shd", val="clear", color="auto", fill=c["fill"]))
            tc = el("tc", pr)
            for k in c["content"]:
                tc.append(x_table(k["tbl"]) if "tbl" in k else el(k["other"]) if "other" in k else x_para(k))
            tr.append(tc)
        e.append(tr)
    return e


def x_doc(doc):
    body = el("body")
    for t in doc["tables"]:
        body.append(x_para(t["between"]) if "between" in t else x_table(t))
    styles = el("styles")
    for s in doc["styles"]:
        e = el("style", el("name", val=s["id"].lower()), type=s["type"], styleId=s["id"])
        if s["aliases"]:
            e.append(el("aliases", val=", ".join(s["aliases"])))
        if s["based"]:
            e.append(el("basedOn", val=s["based"]))
        if s["rpr"] is not None:
            e.append(x_rpr(s["rpr"]))
        styles.append(e)
    num = el("numbering")
    for a in doc["abs"]:
        num.append(el("abstractNum", *[el("lvl", el("numFmt", val=f), el("lvlText", val=t), ilvl=str(i)) for i in a.get("order", range(len(a["lvls"]))) for f, t in [a["lvls"][i]]], abstractNumId=str(a["id"])))
    for n, a in doc["nums"].items():
        num.append(el("num", el("abstractNumId", val=str(a)), numId=n))
    hdr = el("hdr", el("p", *[x_run({"rpr": None, "parts": [{"t": t}]}) for t in doc["header"]]))
    files = {"word/document.xml": el("document", body), "word/styles.xml": styles, "word/header1.xml": hdr}
    if doc["numbering"]:
        files["word/numbering.xml"] = num
    return {k: etree.tostring(v, xml_declaration=True, encoding="UTF-8", standalone=True) for k, v in files.items()}


def write_docx(path, doc):
    with zipfile.ZipFile(path, "w") as z:
        for k, v in x_doc(doc).items():
            z.writestr(k, v)


# -- oracle -----------------------------------------------------------------------
def style_props(doc, sid):
    s = next(s for s in doc["styles"] if s["type"] == "character" and s["id"] == sid)
    base = style_props(doc, s["based"]) if s["based"] else {}
    return {**base, **effective(s["rpr"] or {})}


def effective(d):
    out = {}
    for k in PROPS:
        if k in d:
            out[k] = d[k] not in OFF
    if "u" in d:
        out["u"] = d["u"] != "none"
    if d.get("vertAlign"):
        out["vertAlign"] = d["vertAlign"]
    if d.get("color") and d["color"] != "auto":
        out["color"] = d["color"]
    return out


def css_of(p):
    out = {}
    if "b" in p:
        out["font-weight"] = "bold" if p["b"] else "normal"
    if "i" in p:
        out["font-style"] = "italic" if p["i"] else "normal"
    deco = [n for k, n in (("u", "underline"), ("strike", "line-through")) if p.get(k)]
    if deco:
        out["text-decoration-line"] = " ".join(deco)
    if "vertAlign" in p:
        out["vertical-align"] = {"baseline": "baseline", "subscript": "sub", "superscript": "super"}[p["vertAlign"]]
    if "color" in p:
        out["color"] = "#" + p["color"]
    return out


def run_css(doc, rpr):
    if rpr is None:
        return {}
    base = style_props(doc, rpr["rStyle"]) if "rStyle" in rpr else {}
    return css_of({**base, **effective(rpr)})


def e_spans(doc, p):
    out = []
    for r in p["p"]:
        for k in r["runs"] if "wrap" in r else [] if "mark" in r else [r]:
            css = run_css(doc, k["rpr"])
            out += [[t["t"], css] for t in k["parts"] if t.get("t")]
    return out


def level(doc, num):
    """(abstract number, level) of a list paragraph, None if it is none"""
    if num is None or num[0] not in doc["nums"]:
        return None
    return doc["nums"][num[0]], num[1]


def e_content(doc, content):
    out, i = [], 0
    while i < len(content):
        k = content[i]
        if "tbl" in k:
            out.append(e_table(doc, k["tbl"]))
        elif "p" in k:
            lv = level(doc, k.get("num"))
            if lv:
                j = i
                while j < len(content) and "p" in content[j] and level(doc, content[j].get("num")) and level(doc, content[j].get("num"))[0] == lv[0]:
                    j += 1
                out += e_lists(doc, [(level(doc, c["num"])[1], e_spans(doc, c)) for c in content[i:j]], lv[0])
                i = j
                continue
            sp = e_spans(doc, k)
            if sp:
                out.append({"p": sp})
        i += 1
    return out


def e_lists(doc, items, absn):
    """a sequence of levelled items as nested lists; a list ends at an item
    above the level of its first one"""
    out, i = [], 0
    while i < len(items):
        lvl = items[i][0]
        j = i
        while j < len(items) and items[j][0] >= lvl:
            j += 1
        out.append(e_list(doc, items[i:j], absn))
        i = j
    return out


def e_list(doc, items, absn):
    lvl = items[0][0]
    fmt, txt = next(a for a in doc["abs"] if a["id"] == absn)["lvls"][lvl]
    tag = "ol" if txt.startswith("%") else "ul"
    lis, i = [], 0
    while i < len(items):
        j = i + 1
        while j < len(items) and items[j][0] > lvl:
            j += 1
        sub = e_lists(doc, items[i + 1:j], absn) if items[i][0] == lvl else e_lists(doc, items[i:j], absn)
        spans = items[i][1] if items[i][0] == lvl else []
        # the lists nested below one item; each after the first sits in an item of its own
        lis.append({"li": spans, "sub": sub[:1]})
        lis += [{"li": [], "sub": [s]} for s in sub[1:]]
        i = j
    return {"list": tag, "cls": f"{tag}{absn}", "items": lis}


def header_cell(fill):
    """(background, is heading)"""
    if not fill or len(fill) != 6 or fill.lower() == "ffffff":
        return None, False
    return "#" + fill, fill[0:2] == fill[2:4] == fill[4:6]


def e_table(doc, t):
    rows = t["rows"]
    out = []
    for y, row in enumerate(rows):
        cells = []
        for c in row:
            if c["vm"] in ("", "continue"):
                continue
            h = 1
            while c["vm"] == "restart" and y + h < len(rows) and any(d["x"] == c["x"] and d["vm"] in ("", "continue") for d in rows[y + h]):
                h += 1
            bg, head = header_cell(c["fill"])
            cells.append({"tag": "th" if head else "td", "cs": c["span"], "rs": h, "bg": bg, "content": e_content(doc, c["content"])})
        out.append(cells)
    fid = None
    if out and out[0] and out[0][0]["tag"] == "td" and out[0][0]["content"] and "p" in out[0][0]["content"][0]:
        m = re.match(r"Figure (\d+):", "".join(t for t, _ in out[0][0]["content"][0]["p"]))
        fid = m.group(1) if m else None
    return {"table": out, "id": fid}


def expected(doc):
    h = "".join(doc["header"])
    m = re.match(r".*[Rr]evision\s+(\S+)", h, re.S)
    return {"title": h.split(",")[0].strip(), "rev": m.group(1) if m else None, "name": doc["name"], "tables": [e_table(doc, t) for t in doc["tables"] if "rows" in t]}


# -- reading the HTML model -----------------------------------------------------
class Bad(Exception):
    pass


def read_css(text):
    rules = []
    for m in re.finditer(r"([^{}]*)\{([^{}]*)\}", re.sub(r"/\*.*?\*/", "", text, flags=re.S)):
        attrs = {}
        for a in m.group(2).split(";"):
            if a.strip():
                k, v = a.split(":", 1)
                attrs[k.strip()] = v.strip()
        rules.append((" ".join(m.group(1).split()), attrs))
    return rules


def a_spans(e):
    out = []
    if (e.text or "").strip():
        raise Bad(f"stray text {e.text!r}")
    for s in e:
        if s.tag == "span":
            if len(s):
                raise Bad("markup within a span")
            out.append([s.text or "", s.get("class")])
        if (s.tail or "").strip():
            raise Bad(f"stray text {s.tail!r}")
    return out


def a_content(e):
    out = []
    for k in e:
        if k.tag == "p":
            if any(s.tag != "span" for s in k):
                raise Bad("markup within a paragraph")
            out.append({"p": a_spans(k)})
        elif k.tag in ("ol", "ul"):
            out.append(a_list(k))
        elif k.tag == "table":
            out.append(a_table(k))
        else:
            raise Bad(f"element {k.tag}")
        if (k.tail or "").strip():
            raise Bad(f"stray text {k.tail!r}")
    if (e.text or "").strip():
        raise Bad(f"stray text {e.text!r}")
    return out


def a_list(e):
    lis = []
    for li in e:
        if li.tag != "li":
            raise Bad(f"{li.tag} within a list")
        spans = a_spans(li)
        lis.append({"li": spans, "sub": [a_list(s) for s in li if s.tag != "span"]})
    return {"list": e.tag, "cls": e.get("class"), "items": lis}


def a_table(e):
    rows = []
    for tr in e:
        if tr.tag != "tr":
            raise Bad(f"{tr.tag} within a table")
        rows.append([{"tag": c.tag, "cs": int(c.get("colspan", 1)), "rs": int(c.get("rowspan", 1)), "bg": c.get("class"), "content": a_content(c)} for c in tr])
    return {"table": rows, "id": e.get("id")}


def walk(o, path=()):
    yield o, path
    if isinstance(o, dict):
        for k in ("table", "content", "items", "sub", "p", "li"):
            if k in o:
                yield from walk(o[k], path + (k,))
    elif isinstance(o, list):
        for i, x in enumerate(o):
            yield from walk(x, path + (i,))


def generate(path, out, progress=False):
    from spex.htmlspec.htmlrenderer import SpexHtmlRenderer

    with real.quiet():
        sp = SpexHtmlRenderer(docx_path=path, out_dir=out)
        n = sp.num_figures
        steps = list(sp.generate(yield_progress=progress))
        del sp
    return n, steps


class DCtx:
    def __init__(self, scratch, doc, progress=False):
        self.doc, self.scratch = doc, scratch
        self.error = self.html = None
        src = scratch.path / "d" / f"{doc['name']}.docx"
        import shutil

        shutil.rmtree(src.parent, ignore_errors=True)
        src.parent.mkdir()
        write_docx(src, doc)
        self.exp = expected(doc)
        self.out = out = src.parent / "out"
        out.mkdir()
        try:
            self.num, self.steps = generate(src, out, progress)
        except Exception as e:  # noqa: BLE001
            self.error = f"first stage fails: {type(e).__name__}: {e}"
        self.files = sorted(p.name for p in out.iterdir())
        if self.error:
            return
        try:
            self.raw = (out / f"{doc['name']}.html").read_text(encoding="utf-8")
            self.css_text = (out / f"{doc['name']}.css").read_text(encoding="utf-8")
            self.css = read_css(self.css_text)
            tree = etree.fromstring(self.raw.encode("utf-8").replace(b"<!DOCTYPE html>", b"", 1), etree.XMLParser(resolve_entities=False))
            self.tree = tree
            body = tree.find("body")
            self.tables = [a_table(t) for t in body]
            if (body.text or "").strip() or any((t.tail or "").strip() for t in body):
                raise Bad("text outside of tables")
        except Exception as e:  # noqa: BLE001
            self.error = f"HTML model is not well-formed: {type(e).__name__}: {e}"

    def rule(self, cls):
        r = [a for s, a in self.css if s == "." + cls]
        return r[0] if len(r) == 1 else None


# -- the properties ---------------------------------------------------------------
def texts_of(content):
    return "".join("".join(t for t, _ in o["p"]) + "|" for o in content if "p" in o)


def grid(t):
    return [[[c["cs"], c["rs"], texts_of(c["content"])] for c in row] for row in t["table"]]


def all_tables(ts):
    for t in ts:
        for o, _ in walk(t):
            if isinstance(o, dict) and "table" in o:
                yield o


def c16(c):
    a, b = [grid(t) for t in all_tables(c.tables)], [grid(t) for t in all_tables(c.exp["tables"])]
    out = []
    if a != b:
        for x, y in zip(a, b):
            if x != y:
                out.append(f"table {J(x)}, expected {J(y)}")
                break
        else:
            out.append(f"{len(a)} tables, expected {len(b)}")
    # the cells tile the grid: every column of every row belongs to one cell
    for t in all_tables(c.tables):
        used = {}
        for y, row in enumerate(t["table"]):
            x = 0
            for cell in row:
                while (y, x) in used:
                    x += 1
                for dy in range(cell["rs"]):
                    for dx in range(cell["cs"]):
                        if (y + dy, x + dx) in used:
                            out.append("cells overlap")
                        used[(y + dy, x + dx)] = 1
                x += cell["cs"]
        n = {sum(1 for (yy, _) in used if yy == y) for y in range(len(t["table"]))}
        if len(n) > 1 or any(y >= len(t["table"]) for y, _ in used):
            out.append(f"rows of a table have {sorted(n)} columns")
            break
    return out


def flat(ts):
    """text blocks in document order"""
    out = []
    for t in ts:
        for o, path in walk(t):
            if isinstance(o, dict) and "p" in o:
                out.append("".join(x for x, _ in o["p"]))
            elif isinstance(o, dict) and "li" in o and o["li"]:
                out.append("".join(x for x, _ in o["li"]))
    return out


def c17(c):
    out = []
    a, b = flat(c.tables), flat(c.exp["tables"])
    if a != b:
        d = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        out.append(f"text {J(a[d:d + 2])}, expected {J(b[d:d + 2])}")
    meta = c.tree.find("head").find("meta")
    got = [meta.get("data-spec"), meta.get("data-revision"), c.tree.find("head").find("title").text]
    want = [c.exp["title"], c.exp["rev"], c.exp["name"]]
    if got != want:
        out.append(f"title, revision, name {J(got)}, expected {J(want)}")
    link = c.tree.find("head").find("link")
    if link.get("href") != c.doc["name"] + ".css" or c.files != sorted([c.doc["name"] + ".css", c.doc["name"] + ".html"]):
        out.append(f"files {c.files}, style sheet {link.get('href')!r}")
    ids = [t["id"] for t in all_tables(c.tables)]
    if ids != [t["id"] for t in all_tables(c.exp["tables"])]:
        out.append(f"table ids {ids}")
    return out


def span_pairs(c):
    a = [o for t in c.tables for o, _ in walk(t) if isinstance(o, list) and len(o) == 2 and isinstance(o[0], str)]
    b = [o for t in c.exp["tables"] for o, _ in walk(t) if isinstance(o, list) and len(o) == 2 and isinstance(o[0], str)]
    if [x[0] for x in a] == [x[0] for x in b]:
        return [(x[0], x[1], y[1]) for x, y in zip(a, b)]
    return []


def cell_pairs(c):
    a = [o for t in c.tables for o, _ in walk(t) if isinstance(o, dict) and "bg" in o]
    b = [o for t in c.exp["tables"] for o, _ in walk(t) if isinstance(o, dict) and "bg" in o]
    return list(zip(a, b)) if len(a) == len(b) else []


def c18(c):
    out = []
    classes = {}
    for o in [x for t in c.tables for x, _ in walk(t)]:
        if isinstance(o, list) and len(o) == 2 and isinstance(o[0], str) and o[1]:
            classes[o[1]] = 1
        if isinstance(o, dict) and o.get("bg"):
            classes[o["bg"]] = 1
    defs = [s[1:] for s, _ in c.css if re.fullmatch(r"\.\w+", s)]
    for k in sorted(classes):
        if defs.count(k) != 1:
            out.append(f"class {k} is defined {defs.count(k)} times")
    if len(set(defs)) != len(defs):
        out.append("a class is defined twice")
    for pre in ("txtfmt", "tcell"):
        rules = [J(a) for s, a in c.css if s.startswith("." + pre)]
        if len(set(rules)) != len(rules) or "{}" in rules:
            out.append(f"{pre}: classes with equal or empty rules")
    by = {}
    for text, cls, want in span_pairs(c):
        if by.setdefault(J(want), cls) != cls:
            out.append(f"equal formatting {want}, different classes {cls} and {by[J(want)]}")
        if cls and c.rule(cls) is not None and c.rule(cls) != want:
            out.append(f"text {text!r} has the formatting {c.rule(cls)}, expected {want}")
    for a, b in cell_pairs(c):
        bg = (c.rule(a["bg"]) or {}).get("background-color") if a["bg"] else None
        if (a["tag"], bg) != (b["tag"], b["bg"]):
            out.append(f"cell {a['tag']} {bg}, expected {b['tag']} {b['bg']}")
    return out[:4]


def c19(c):
    out = []
    for text, cls, want in span_pairs(c):
        got = (c.rule(cls) or {}) if cls else {}
        if got != want:
            out.append(f"text {text!r} has the formatting {got}, expected {want}")
    return out[:4]


def shape(o):
    if isinstance(o, dict):
        if "p" in o:
            return "p:" + "".join(t for t, _ in o["p"])
        if "list" in o:
            return {"list": [o["list"], o["cls"]], "items": [["".join(t for t, _ in i["li"]), [shape(s) for s in i["sub"]]] for i in o["items"]]}
        if "table" in o:
            return {"table": [[[shape(x) for x in c["content"]] for c in row] for row in o["table"]]}
    return o


def c20(c):
    a, b = [shape(t) for t in c.tables], [shape(t) for t in c.exp["tables"]]
    out = []
    if a != b:
        ca = [x for t in c.tables for x, _ in walk(t) if isinstance(x, dict) and "content" in x]
        cb = [x for t in c.exp["tables"] for x, _ in walk(t) if isinstance(x, dict) and "content" in x]
        for x, y in zip(ca, cb):
            if [shape(k) for k in x["content"]] != [shape(k) for k in y["content"]]:
                out.append(f"cell content {J([shape(k) for k in x['content']])}, expected {J([shape(k) for k in y['content']])}")
                break
        else:
            out.append(f"structure {J(a)[:300]}, expected {J(b)[:300]}")
    # numbering styles
    sel = [(s, a.get("list-style-type")) for s, a in c.css if "list-style-type" in a]
    want = []
    for ab in c.doc["abs"] if c.doc["numbering"] else []:
        for i in ab.get("order", range(len(ab["lvls"]))):
            f, t = ab["lvls"][i]
            tag = "ol" if t.startswith("%") else "ul"
            st = {"decimal": "decimal", "lowerLetter": "lower-alpha", "lowerRoman": "lower-roman"}.get(f, "decimal") if tag == "ol" else ("disc", "circle")[i % 2]
            want.append((" ".join([f"{tag}.{tag}{ab['id']}"] + [tag] * i), st))
    if sel != want:
        out.append(f"list styles {sel}, expected {want}")
    return out


CHECKS = {"C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20}
PROFILES = {"C16": {"merge": 0.7, "nested": 0.12}, "C20": {"list": 0.45, "nested": 0.15}}


def judge(pid, c):
    if c.error:
        return [c.error]
    return CHECKS[pid](c)


# -- shrinking ------------------------------------------------------------------
def reductions(doc):
    for i in range(len(doc["tables"])):
        if len(doc["tables"]) > 1:
            yield dict(doc, tables=doc["tables"][:i] + doc["tables"][i + 1:])
    for i, t in enumerate(doc["tables"]):
        if "rows" in t:
            for t2 in table_reductions(t):
                yield dict(doc, tables=doc["tables"][:i] + [t2] + doc["tables"][i + 1:])
    used = J(doc["tables"]) + J([s["based"] for s in doc["styles"]])
    for i, s in enumerate(doc["styles"]):
        if s["type"] != "character" or f'"{s["id"]}"' not in used:
            yield dict(doc, styles=doc["styles"][:i] + doc["styles"][i + 1:])


def table_reductions(t):
    rows = t["rows"]
    for i in range(len(rows) - 1, -1, -1):
        rest = rows[:i] + rows[i + 1:]
        if all(c["vm"] not in ("", "continue") or (k and any(d["x"] == c["x"] and d["span"] == c["span"] and d["open"] for d in rest[k - 1])) for k, r in enumerate(rest) for c in r):
            yield dict(t, rows=rest)
    for i, row in enumerate(rows):
        for j, c in enumerate(row):
            for k in range(len(c["content"])):
                if len(c["content"]) > 1:
                    yield put(t, i, j, dict(c, content=c["content"][:k] + c["content"][k + 1:]))
                x = c["content"][k]
                if "tbl" in x:
                    for t2 in table_reductions(x["tbl"]):
                        yield put(t, i, j, dict(c, content=c["content"][:k] + [{"tbl": t2}] + c["content"][k + 1:]))
                elif "p" in x:
                    for q in range(len(x["p"])):
                        yield put(t, i, j, dict(c, content=c["content"][:k] + [dict(x, p=x["p"][:q] + x["p"][q + 1:])] + c["content"][k + 1:]))


def put(t, i, j, c):
    rows = t["rows"]
    return dict(t, rows=rows[:i] + [rows[i][:j] + [c] + rows[i][j + 1:]] + rows[i + 1:])


def shrink(pid, scratch, doc, limit=250):
    n, again = 0, True
    while again and n < limit:
        again = False
        for d in reductions(doc):
            n += 1
            if n > limit:
                break
            if judge(pid, DCtx(scratch, d)):
                doc, again = d, True
                break
    return doc


def run_one(pid, seed, scratch):
    real.load()
    rnd = random.Random(f"docx{pid}/{seed}")
    doc = Gen(rnd, PROFILES.get(pid, {})).document()
    progress = rnd.random() < 0.3
    c = DCtx(scratch, doc, progress)
    bad = judge(pid, c)
    if not bad and progress and pid == "C17" and (c.steps != list(range(len(c.tables))) or c.num < len(c.tables)):
        bad = [f"progress {c.steps} of {c.num} for {len(c.tables)} tables"]
    v = None
    if bad:
        small = shrink(pid, scratch, doc)
        c2 = DCtx(scratch, small, progress)
        v = {"docx": {k: x.decode() for k, x in x_doc(small).items()}, "doc": small, "complaints": (judge(pid, c2) or bad)[:4], "seed": seed}
    return any(t.get("rows") for t in doc["tables"]), J(doc["tables"]), v
