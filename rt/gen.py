"""Generator of HTML models (input of the second stage).

Documents are plain data, so that they can be shrunk, and rendered to HTML.
A part of the vocabulary is taken from the string and integer constants of the
code under test, such that code which special-cases an input is confronted
with it."""
import ast
import functools
import os
from html import escape
from pathlib import Path

REPO = Path(os.environ.get("SPEX_REPO", "/repo"))


@functools.lru_cache(None)
def code_constants():
    strs, ints = set(), set()
    for f in sorted((REPO / "src").rglob("*.py")):
        try:
            tree = ast.parse(f.read_text())
        except SyntaxError:
            continue
        docs = {id(n.body[0].value) for n in ast.walk(tree)
                if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
                if isinstance(v, str) and 0 < len(v) <= 40 and v.isprintable():
                    strs.add(v)
                elif isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 5000:
                    ints.add(v)
    return sorted(strs), sorted(ints)


WORDS = ("Command", "Identifier", "Namespace", "Size", "Power", "State", "Queue", "Data", "Log", "Page", "Status",
         "Media", "Zone", "Key", "and", "of", "the", "Number", "NVMe", "8b", "Set", "Vendor", "Specific", "Time")
ACR = ("CDW0", "NSID", "OPC", "FUSE", "PSDT", "CID", "MPTR", "SQHD", "SC", "SCT", "P", "DNR", "ABC", "X1")
SPECIAL = ("Reserved", "RESERVED", "reserved", "Obsolete", "OBSOLETE", "obsolete", "…", "Note: see above", "NOTE 1", "Notes: text", "note")


def clip(rows, at):
    """no cell of the rows before `at` spans past them"""
    for k, row in enumerate(rows[:at]):
        for c in row["cells"]:
            c["rs"] = min(c["rs"], at - k)


class Gen:
    def __init__(self, rnd, profile=None):
        self.r = rnd
        self.strs, self.ints = code_constants()
        self.profile = profile or {}

    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        return self.r.choice(xs)

    def word(self):
        if self.p(0.04):
            return self.pick(self.strs)
        if self.p(0.03):
            return str(self.pick(self.ints))
        return self.pick(WORDS)

    def words(self, lo, hi):
        return " ".join(self.word() for _ in range(self.r.randint(lo, hi)))

    def sentence(self):
        if self.p(0.15):
            # a brief around a length which matters to the code
            n = self.pick([60, self.pick(self.ints)]) + self.r.randint(-2, 2)
            s = (self.words(1, 3) + " " + "x" * 400)[: max(1, n)]
            return s + self.pick(("", ".", ". More text follows here.", ": tail"))
        s = self.words(1, 9)
        return s + self.pick(("", ".", ".", ". " + self.words(1, 5) + ".", " (" + self.pick(ACR) + ")", ": " + self.words(1, 3), "…"))

    def label(self):
        r = self.r.random()
        if r < 0.5:
            s = self.words(1, 3)
        elif r < 0.62:
            s = self.pick(ACR)
        elif r < 0.7:
            s = self.words(1, 2) + self.pick((" - ", "/", ", ", " & ", "-", "_", "'s ", "  ", ". ", "+")) + self.words(1, 2)
        elif r < 0.78:
            s = str(self.r.randint(0, 99)) + self.pick(("_", " ", "")) + self.words(0, 2)
        elif r < 0.84:
            s = self.pick(SPECIAL)
        elif r < 0.9:
            s = self.pick(self.strs)
        else:
            s = self.pick(("", "…", "A…", "éclair", "ß", "İx", "x y  z", "a_b", "_a", "A__B", "9", "(X)", "X ()", "[7]", "A. B", "\u00a0A", "...a"))
        return s

    def content(self):
        """text of a definition cell"""
        if self.p(0.1):
            return self.pick(SPECIAL)
        s = self.label()
        if self.p(0.55):
            s += self.pick((" ", " ", "")) + "(" + self.pick(ACR + (self.label(),)) + ")"
        if self.p(0.8):
            s += self.pick((":", ": ", ": ", " : ", ":\n"))
            s += self.sentence()
        elif self.p(0.3):
            s += self.sentence()
        return s

    def rng(self, lo, hi):
        if lo == hi and self.p(0.8):
            s = str(lo)
        else:
            sep = self.pick((":", ":", ":", " : ", ": ", " :"))
            s = f"{hi}{sep}{lo}"
        if self.p(0.06):
            s = self.pick((f"0{hi}:0{lo}", f"{lo}:{hi}", f"{hi}h", f"({hi}:{lo})", f"{hi}-{lo}", f"{hi}:", f":{lo}",
                           f"{hi}: {lo}b", "abc", "", "N:M", f" {hi}:{lo} ", "٣:١", f"{hi}:{lo}:{lo}", "-1", f"{hi}.{lo}", f"{hi}:\n{lo}"))
        return s

    def dyn(self):
        if self.p(0.5):
            n = self.r.randint(0, 64)
            return self.pick((f"((NF*{n})+{n + 3}):((NF*{n})+{n})", f"{n + 7}:{n}", f"(N * {n}) + 3 :\n(N*{n})", f"{n}", "M-1:N", "x:y:z", "n/2:m"))
        return self.pick((f"{self.label()}:{self.label()}", "A+1:A", self.label()))

    # -- tables -------------------------------------------------------------
    def cell(self, *paras, tables=(), rs=1, cs=1, tag="td"):
        return {"paras": list(paras), "tables": list(tables), "rs": rs, "cs": cs, "tag": tag}

    def nested(self, depth):
        if depth >= 3 or not self.p(self.profile.get("nested", 0.12)):
            return []
        return [self.table(depth + 1) for _ in range(2 if self.p(0.12) else 1)]

    HDR = {
        "bits": (("bits", "description"), ("bits", "attribute", "description"), ("bit", "description"), ("bits", "field", "description"), ("bits", "reset", "description")),
        "bytes": (("bytes", "description"), ("bytes", "attribute", "description"), ("byte", "description"), ("bytes", "o/m", "description"), ("bytes", "description", "reference")),
        "values": (("value", "definition"), ("value", "description"), ("code", "definition"), ("values", "definition"), ("value", "attribute", "description"),
                   ("value", "meaning"), ("value", "power scope"), ("code", "status")),
        "other": (("field", "description"), ("a", "b", "c"), ("value", "x", "y"), ("bits",), ("value",), ("definition", "meaning"), ("values", "meaning"), (), ("value", "")),
        "multi": (("bytes", "bits", "description"), ("bytes", "value", "description"), ("bits", "value", "definition"), ("value", "bits", "description"),
                  ("value", "bytes", "definition"), ("values", "bytes", "definition", "description"), ("value", "value"), ("bits", "bits", "description"), ("description", "bits"),
                  ("definition", "value"), ("bytes", "description", "description"), ("value", "definition", "description"), ("attribute", "bytes", "description")),
    }

    def table(self, depth, kind=None):
        kind = kind or self.r.choices(("bits", "bytes", "values", "other", "multi"), (5, 5, 6, 1, 1))[0]
        hdr = list(self.pick(self.HDR[kind]))
        if self.p(0.03) and hdr:
            hdr[self.r.randrange(len(hdr))] = self.pick(self.strs)
        hdr = [self.hdr_text(h) for h in hdr]
        rows = [{"cells": [self.cell(h, tag="td" if self.p(0.03) else "th") for h in hdr]}]
        n = self.r.choices((0, 1, 2, 3, 4, 5, 8), (1, 2, 3, 4, 4, 3, 1))[0]
        rows += self.rows(kind, len(hdr), n, depth)
        return {"title": None, "wrap": False, "rows": rows}

    def hdr_text(self, h):
        h = self.pick((h, h.capitalize(), h.title(), h.upper()))
        if self.p(0.25 if " " in h else 0.06):
            h = self.pick((" " + h, h + " ", h.replace(" ", "\n"), h.replace(" ", "   "), "\n" + h, h + "\r\n", "\t" + h))
        return h

    def rows(self, kind, ncols, n, depth):
        if ncols == 0:
            return []
        out = []
        pos = self.r.choice((0, 0, 0, 4, 16))
        spans = []  # (lo, hi) of struct rows
        for _ in range(n):
            width = self.pick((1, 1, 1, 2, 4, 8))
            spans.append((pos, pos + width - 1))
            pos += width
            if self.p(0.06):
                pos += self.pick((-1, 1, 2, -2))
                pos = max(0, pos)
        if kind == "bits":
            spans.reverse()
        if self.p(0.05):
            self.r.shuffle(spans)
        dynamic = kind in ("bytes", "bits") and self.p(0.08)
        below = [0] * ncols
        val = self.r.choice((0, 0, 1))
        labels = []
        for i in range(n):
            if dynamic and i == n // 2:
                out.append({"cells": [self.cell(self.pick(("List of Things", "Other", "Descriptor List")), cs=ncols, tag="th")]})
                below = [max(0, b - 1) for b in below]
            elif i and self.p(0.25 if dynamic and i > n // 2 else 0.01):
                # a further heading among the rows
                ths = [self.cell(self.pick(("Other", "Reserved", "", "List", "Header")), cs=ncols, tag="th")] if self.p(0.7) else [self.cell(self.pick(self.strs), tag="th") for _ in range(ncols)]
                out.append({"cells": ths})
                below = [max(0, b - 1) for b in below]
            r = self.r.random()
            if 0.07 <= r < self.profile.get("ellipsis", 0.075) and ncols >= 2 and not any(below):
                k = self.r.randint(1, ncols - 1)
                row = [self.cell("…", cs=k)] + [self.cell(self.content(), rs=self.pick((1, 2, 2, 3))) for _ in range(k, ncols)]
                below = [0] * k + [c["rs"] - 1 for c in row[1:]]
                out.append({"cells": row})
                continue
            if r < 0.07:
                cells = [self.cell(self.pick(("…", "Notes: foo", "NOTES: 1. bar", "note", "see below", "… and so on", self.sentence(), self.pick(self.strs))), cs=ncols)]
                if any(below):
                    cells = []
                    continue
                out.append({"cells": cells})
                continue
            key_lo, key_hi = spans[i]
            if kind in ("values", "other", "multi") and not (kind == "multi" and self.p(0.5)):
                if self.p(0.9):
                    val += 1
                key = self.pick((f"{val}h", f"{val:02b}b", f"{val}", f"0{val}H", f"{val:x}h to {val + 3:x}h"))
                if self.p(0.06):
                    key = self.pick(("…", "Others", "", "All others", self.pick(self.strs), "1", "00b", "01b"))
            else:
                key = self.dyn() if dynamic and i >= n // 2 else self.rng(key_lo, key_hi)
                if self.p(0.05):
                    key = self.pick(SPECIAL + (key,))
            content = self.content()
            if labels and self.p(0.12):
                content = self.pick(labels)
            labels.append(content)
            row, col = [], 0
            fill = [[key], [content]] + [[self.label()] for _ in range(max(0, ncols - 2))]
            if ncols >= 3:
                fill = [[key], [self.pick((self.label(), self.label() + ": " + self.words(1, 3)))], [content]] + fill[3:]
            while col < ncols:
                if below[col]:
                    col += 1
                    continue
                cs = 1
                if self.p(0.02):
                    while cs < 3 and col + cs < ncols and not below[col + cs]:
                        cs += 1
                rs = self.pick((2, 2, 3)) if self.p(self.profile.get("span", 0.04) if depth == 0 else self.profile.get("nested_span", 0.04)) and i + 1 < n else 1
                paras = list(fill[col])
                if col == ncols - 1 and self.p(0.3):
                    paras += [self.sentence() for _ in range(self.r.randint(1, 2))]
                if self.p(0.02):
                    paras = []
                if self.p(0.02):
                    paras = [""] + paras
                row.append(self.cell(*paras, tables=self.nested(depth) if col >= 1 else [], rs=rs, cs=cs))
                for c in range(col, col + cs):
                    below[c] = rs
                col += cs
            regular = sum(c["cs"] for c in row) == ncols
            below = [max(0, b - 1) for b in below]
            if self.p(0.015) and regular and not any(below):
                row = row[:-1]
            out.append({"cells": row})
        return out

    def title(self):
        n = self.pick((str(self.r.randint(1, 99)), str(self.r.randint(1, 99)), "1.2", "A", "7a", "12_3"))
        r = self.r.random()
        if r < 0.85:
            return f"Figure {n}: {self.words(1, 5)}"
        return self.pick((f"Figure {n}", f"Figure{n}: x", f"Figure  {n} – {self.words(1, 2)}", f"Table {n}: {self.words(1, 2)}", f"see Figure {n}: x",
                          "Figure", "Figure :", "Figure ^", "", f"figure {n}: lower", f"Figure\n{n}: nl", self.words(1, 3), f"Figure {n}:{self.words(1, 1)}",
                          f"Figure {n}.: dots", "Figures overview"))

    def figure(self):
        t = self.table(0)
        t["title"] = self.title()
        t["wrap"] = self.p(0.05)
        if t["wrap"] and self.p(0.5):
            t["after"] = self.pick((("row",), ("cell",), ("para",), ("table",), ("row", "row"), ("para", "cell", "row")))
        if self.p(0.01):
            t["rows"] = []
            t["title"] = None
        return t

    META = (("NVM Express Base Specification", "2.0c"), ("X Spec", "1"), ("NVM Express® NVM Command Set Specification", "1.0c"),
            ("NVM Express® Zoned Namespace Command Set Specification", "1.1C"), ("NVM Express® Management Interface Specification", "1.2c"),
            ("NVM Express® Key Value Command Set Specification", "1.0"), ("NVM Express® Key Value Command Set Specification", "1.0c"),
            ("NVM Express® NVM Command Set Specification", "1.0d"))

    def quirky(self, meta):
        """a figure for which a quirk exists, for the document `meta`"""
        name = meta[0].lower()
        q = self.r.random()
        if "zoned" in name or "management" in name and q < 0.5:
            t = self.table(0, "values")
            fid = "37" if "zoned" in name else "19"
            for i, row in enumerate(t["rows"][1:]):
                if row["cells"] and self.p(0.7):
                    row["cells"][0]["paras"] = [str(i % 4)]
        elif "management" in name or "nvm command" in name and q < 0.5:
            fid, nxt = ("64", "65") if "management" in name else ("23", "24")
            t = self.table(0, self.pick(("bits", "bits", "bits", "values")))
            t2 = self.table(0)
            clip(t["rows"], len(t["rows"]))
            if self.p(0.8):
                t["rows"] += [{"cells": [self.cell(self.pick(("Figure %s: Second", "Figure %s", "figure %s: x")) % nxt, cs=max(1, len(t["rows"][0]["cells"])))]}] + t2["rows"]
        elif "key value" in name:
            fid = "41"
            t = self.table(0, self.pick(("bytes", "bytes", "bytes", "bits")))
            if self.p(0.7):
                at = self.r.randint(1, len(t["rows"]))
                clip(t["rows"], at)
                t["rows"].insert(at, {"cells": [self.cell(self.pick(("See key (refer to Figure 39).", "See (refer to Figure 39)")), cs=max(1, len(t["rows"][0]["cells"])))]})
        else:
            fid = self.pick(("42", "49", "64"))
            t = self.table(0, "bytes")
            v = self.table(1, "values")
            for i, row in enumerate(v["rows"][1:]):
                if row["cells"] and self.p(0.7):
                    row["cells"][0]["paras"] = [f"{i % 4:02b}b"]
            for row in t["rows"][1:]:
                if len(row["cells"]) > 1:
                    row["cells"][0]["paras"] = ["4"]
                    row["cells"][-1]["tables"] = [v]
                    break
        t["title"] = f"Figure {fid}: {self.words(1, 3)}"
        return t

    def document(self, max_figs=3):
        meta = self.pick(self.META) if self.p(self.profile.get("quirks", 0.12)) else self.META[0]
        figs = [self.figure() for _ in range(self.r.randint(1, max_figs))]
        if meta is not self.META[0] and self.p(0.8):
            figs.insert(0, self.quirky(meta))
        spec, rev = meta
        if self.p(self.profile.get("near", 0.04)):  # almost that document
            k = self.r.randrange(8)
            if k < 4:
                rev = (rev + self.pick(("-rc", "-1", "a", " draft", ".1", "/2")), rev[:-1] or "1", " " + rev, "Revision " + rev)[k]
            else:
                spec = (spec + " ", spec[:-1], spec + self.pick((" 2", "ß", "ſ", "İ", "K", "Σ")), "The " + spec)[k - 4]
        return {"spec": spec, "rev": rev, "figs": figs}


# -- rendering ----------------------------------------------------------------
def render_cell(c, out):
    a = "".join(f' {k}="{v}"' for k, v in (("colspan", c["cs"]), ("rowspan", c["rs"])) if v > 1)
    out.append(f"<{c['tag']}{a}>")
    for p in c["paras"]:
        out.append(f"<p><span>{escape(p)}</span></p>")
    for t in c["tables"]:
        render_table(t, out)
    out.append(f"</{c['tag']}>")


def render_table(t, out):
    if t.get("wrap"):
        out.append("<table><tr><td>")
    out.append("<table>")
    if t["title"] is not None:
        n = max([1] + [sum(c["cs"] for c in r["cells"]) for r in t["rows"]])
        out.append(f'<tr><td colspan="{n}"><p><span>{escape(t["title"])}</span></p></td></tr>')
    for r in t["rows"]:
        out.append("<tr>")
        for c in r["cells"]:
            render_cell(c, out)
        out.append("</tr>\n")
    out.append("</table>")
    if t.get("wrap"):
        # what else the wrapping table holds: after the inner table in its cell, beside and below that cell
        more = t.get("after", ())
        out += [{"para": "<p><span>note</span></p>", "table": "<table><tr><td><p><span>Figure 9: other</span></p></td></tr></table>"}.get(k, "") for k in more]
        out.append("</td>")
        out += ["<td><p><span>Figure 8: beside</span></p></td>" for k in more if k == "cell"]
        out.append("</tr>")
        out += ["<tr><td><p><span>Figure 7: below</span></p></td></tr>" for k in more if k == "row"]
        out.append("</table>")


def render(doc):
    out = ["<!DOCTYPE html>\n<html lang=\"en\"><head>",
           f'<meta charset="utf-8" data-spec="{escape(doc["spec"])}" data-revision="{escape(doc["rev"])}"/>',
           '<meta name="spexVersion" content="0" /><title>t</title></head>\n<body>\n']
    for t in doc["figs"]:
        render_table(t, out)
        out.append("\n")
    out.append("</body></html>")
    return "".join(out)
