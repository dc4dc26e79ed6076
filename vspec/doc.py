"""Specification of the whole second stage: HTML model -> JSON model.

Executable: `stage2(html, skip)` is the oracle of the runtime-contract part of
the checks; its pieces (figure_loop, headers, dispatch, ...) are the contracts
discharged by the verifier."""
import io
import json
import re

from lxml import etree

from . import rows, structs, values
from .base import FIG_ID, TraceLinter
from .xmlspec import NotFound, txt, xp

VERSION_KEYS = ("specification", "revision", "format version", "spex version", "lint")

HDR_SYNONYMS = {"code": "value", "bit": "bits", "byte": "bytes"}

STRUCT_LABEL_HDRS = ("attribute", "description")
STRUCT_CONTENT_HDRS = ("description",)
VALUE_HDRS = ("value", "values")
VALUE_LABEL_HDRS = ("attribute", "definition", "description", "power scope")
VALUE_CONTENT_HDRS = ("definition", "description", "power scope")

QUIRKS = {
    ("nvm express® nvm command set specification", "1.0c"): {
        "labels": {
            ("42_4", "00b"): "none", ("42_4", "01b"): "idle", ("42_4", "10b"): "normal", ("42_4", "11b"): "low",
            ("49_0_4", "00b"): "none", ("42_0_4", "01b"): "idle", ("49_0_4", "10b"): "normal", ("49_0_4", "11b"): "low",
            ("64_0_4", "00b"): "none", ("64_0_4", "01b"): "idle", ("64_0_4", "10b"): "normal", ("64_0_4", "11b"): "low",
        },
        "split": {"23": ("bits", "figure 24", "24")},
    },
    ("nvm express® zoned namespace command set specification", "1.1c"): {
        "labels": {("37", "0"): "zt", ("37", "1"): "zs", ("37", "2"): "za"},
    },
    ("nvm express® management interface specification", "1.2c"): {
        "labels": {("19", "2"): "misc"},
        "split": {"64": ("bits", "figure 65", "65")},
    },
    ("nvm express® key value command set specification", "1.0c"): {"ignore_rows": {"41": "(refer to Figure 39)."}},
    ("nvm express® key value command set specification", "1.0"): {"ignore_rows": {"41": "(refer to Figure 39)."}},
}


class Failed(Exception):
    """a figure could not be processed"""


def figure_title(tr):
    t = txt(tr)
    return t if "Figure" in t else None


def figure_id(title):
    m = FIG_ID.match(title)
    return None if m is None else m.group("figid")


def header_text(cell):
    t = txt(cell).lower().strip()
    return re.sub(" +", " ", t.replace("\n", " ").replace("\r", "")).strip()


def first_in(hdrs, accepted):
    """the first heading which is one of the accepted ones"""
    return next((h for h in hdrs if h in accepted), None)


def first_other(hdrs, name):
    return next((h for h in hdrs if h != name), None)


def last_index(hdrs, h):
    return max(i for i, x in enumerate(hdrs) if x == h)


def layout(hdrs, kind):
    """(key, label, content) column indices, or None if kind does not apply"""
    if kind == "values":
        k, l, c = first_in(hdrs, VALUE_HDRS), first_in(hdrs, VALUE_LABEL_HDRS), first_in(hdrs, VALUE_CONTENT_HDRS)
        if None in (k, l, c) and len(hdrs) == 2 and k == "value":
            o = first_other(hdrs, "value")
            if o:
                l = c = o
    else:
        k, l, c = first_in(hdrs, (kind,)), first_in(hdrs, STRUCT_LABEL_HDRS), first_in(hdrs, STRUCT_CONTENT_HDRS)
    if None in (k, l, c):
        return None
    return tuple(last_index(hdrs, h) for h in (k, l, c))


class Figure:
    """what the specifications of the extractors need to know about a figure"""

    def __init__(self, doc, meta, tbl, kind, cols, quirk):
        self.entity_meta, self.fig_id, self.tbl = meta, meta["fig_id"], tbl
        self.linter = doc.linter
        self.doc = doc
        self.vghost = {"same": cols[1] == cols[2], "cols": cols, "type": kind, "broken": False, "quirk": quirk}
        self.voverrides = doc.labels.get

    def vparse(self, meta, tbl):
        try:
            yield from self.doc.figure(meta, tbl)
        except Failed:
            self.vghost["broken"] = True


class Doc:
    def __init__(self, html, skip):
        self.root = etree.parse(io.StringIO(html)).getroot()
        self.spec = self.root.xpath("./head/meta/@data-spec")[0].lower()
        self.rev = self.root.xpath("./head/meta/@data-revision")[0].lower()
        q = QUIRKS.get((self.spec, self.rev), {})
        self.labels = q.get("labels", {})
        self.split = q.get("split", {})
        self.ignore_rows = q.get("ignore_rows", {})
        self.linter = TraceLinter()
        self.skip = skip
        self.missing = 0
        self.reported = False

    def figures(self):
        for tbl in xp(self.root, "./body/table"):
            inner = xp(tbl, "./tr[1]/td[1]/*[1]")
            if len(inner) > 0 and inner[0].tag == "table":
                tbl = inner[0]
            first = xp(tbl, "./tr[1]")
            if len(first) == 0:
                continue
            first[0].getparent().remove(first[0])
            title = figure_title(first[0])
            if title is None:
                continue
            fid = figure_id(title)
            if fid is None:
                self.linter.issue("T1008", f"FIG_ID_MISSING[{self.missing}]", None, {"title": title})
                self.missing += 1
                continue
            yield {"title": title, "fig_id": fid}, tbl

    def headers(self, fid, tbl):
        out = []
        for c in xp(tbl, "./tr[1]/*"):
            h = header_text(c)
            r = HDR_SYNONYMS.get(h)
            if r is not None:
                self.linter.issue("T1006", fid, None, {"got": h, "expected": r})
                h = r
            out.append(h)
        return out

    def figure(self, meta, tbl):
        self.reported = False
        hdrs = self.headers(meta["fig_id"], tbl)
        forced = None
        if meta["fig_id"] in self.split:
            forced = self.split[meta["fig_id"]][0]
        elif meta["fig_id"] in self.ignore_rows:
            forced = "bytes"
        if forced is not None:
            kind, cols = forced, layout(hdrs, forced)
            if cols is None:
                if "parent_fig_id" in meta or not self.skip:
                    raise Failed(meta["fig_id"])
                self.linter.issue("T1000", meta["fig_id"], None, {"title": meta["title"]} if "title" in meta else {})
                return
        else:
            for kind in ("bytes", "values", "bits"):
                cols = layout(hdrs, kind)
                if cols is not None:
                    break
            else:
                self.linter.issue("T1007", meta["fig_id"], None, {"columns": hdrs})
                return
        quirk = None
        if meta["fig_id"] in self.split:
            quirk = ("split", self.split[meta["fig_id"]][1])
        elif meta["fig_id"] in self.ignore_rows:
            quirk = ("ignore", self.ignore_rows[meta["fig_id"]])
        fig = Figure(self, meta, tbl, kind, cols, quirk)
        spec = values.value_table if kind == "values" else structs.struct_table
        try:
            at = yield from spec(fig)
            if at is not None:
                yield from self.figure(*self.split_off(fig, self.split[meta["fig_id"]][2]))
        except Exception as e:
            if not self.reported:
                self.reported = True
                self.linter.issue("T1000", meta["fig_id"], None, {"title": meta["title"]} if "title" in meta else {})
            if "parent_fig_id" in meta or not self.skip:
                raise Failed(meta["fig_id"]) from e

    def split_off(self, fig, fid):
        """the figure which follows the title row inside of another figure"""
        for tr, row in rows.paired_rows(fig.tbl):
            if len(xp(row, "./th")) == 0 and structs.cell_texts(fig, row) is None and txt(row).lstrip().lower().startswith(fig.vghost["quirk"][1]):
                new = etree.Element("table")
                for r in list(tr.itersiblings()):
                    new.append(r)
                meta = {"fig_id": fid}
                if figure_title(row) is not None:
                    meta["title"] = figure_title(row)
                return meta, new

    def run(self):
        out = []
        failed = False
        try:
            for meta, tbl in self.figures():
                for e in self.figure(meta, tbl):
                    out.append(json.loads(json.dumps(e)))
        except Failed:
            failed = True
        return {
            "spec": self.spec, "rev": self.rev, "entities": out, "failed": failed,
            "lint": [json.loads(json.dumps(x)) for x in self.linter.trace],
        }


def stage2(html, skip=True):
    return Doc(html, skip).run()
