"""Contracts of the extractors of single figures which are known to be malformed (C15).

The loop over the rows is proved once for any handler of malformed rows that keeps
to its contract (a row is skipped, ends the figure and is remembered, or raises);
the handlers, and what becomes of the remembered row, are proved figure by figure."""
from lxml import etree

from pyvc import libmodels
from pyvc.core import PList, T
from pyvc.mark import prim
from pyvc.verify import Contract
from spex.jsonspec.extractors.figure import RowErrPolicy
from spex.jsonspec.extractors.structtable import BitsTableExtractor, BytesTableExtractor
from spex.jsonspec.quirks import QUIRKS_MAP
from . import contracts_rows, doc, structs
from .contracts_doc import Stand
from .contracts_docx import models_build
from .contracts_struct import M, extractor
from .doc import QUIRKS
from .xmlspec import NotFound, txt

A = libmodels.OPQ_ATTR
A[("elem", "itersiblings")] = lambda I, e: models_build(I, T.List(T.Opq("elem")), "siblings", e)
A[("docparser", "_on_extract_figure_title")] = lambda I, d, tr: I.call(doc.figure_title, [tr], {})


def _rest(I, row):
    t = contracts_rows._element(I, "table")
    t.attrs["kids"] = PList(I.ctx, list(I.segs_of(I.call(I.getattr(I.resolve(row), "itersiblings"), [], {}))))
    return t


@prim(_rest)
def rest_of(row):
    """a table of the rows after this one"""
    t = etree.Element("table")
    for r in list(row.itersiblings()):
        t.append(r)
    return t


def decide(self, row):
    """what is done about a malformed row"""
    kind, text = self.vghost["quirk"][:2]
    if kind == "ignore" and txt(row).endswith(text):
        return RowErrPolicy.Continue
    if kind == "split" and txt(row).lstrip().lower().startswith(text):
        return RowErrPolicy.Stop
    return RowErrPolicy.Raise


# the loop, for any such handler -----------------------------------------------
class HandledBits(BitsTableExtractor):
    def row_err_handler(self, row_it, row, fields, err):
        yield from ()
        out = decide(self, row)
        if out == RowErrPolicy.Stop:
            self.vat = row
        return out


class HandledBytes(BytesTableExtractor):
    row_err_handler = HandledBits.row_err_handler


def remembered(self):
    at = yield from structs.struct_table(self)
    self.vat = at


def handled(cls, kind, quirk):
    def build(B):
        o = extractor(B, cls, cols=(kind, "description"), quirk=(quirk, B.str("text")))
        o.attrs["vat"] = None
        return [o], {}

    return build


def seen(I, o):
    return (I.getattr(o, "linter"), I.getattr(o, "vat"))


for _cls, _k, _kind in ((HandledBits, "bits", "split"), (HandledBytes, "bytes", "ignore")):
    Contract(M + "StructTableExtractor.__call__", remembered if _kind == "split" else structs.struct_table, handled(_cls, _k, _kind), variant=f"rows handled: {_kind}",
             reveal=[structs.struct_table], folds=lambda I, B, a: [(I.call(structs.rows_of, [I.getattr(a[0], "tbl")], {}), structs.STRUCT.at(a[0]))],
             frame=seen, view=lambda I, r: None, frame_on_raise=False, yields=structs.ENTITY, props=["C15", "C14"], use=False)


# the handlers -------------------------------------------------------------------
def one_row(self):
    """what the loop does about a malformed row"""
    err = NotFound(message="row", query="")
    out = yield from self.row_err_handler(iter([]), self.vrow, [], err)
    self.vpolicy = out
    if out == RowErrPolicy.Raise:
        raise err


def no_row(self):
    yield from ()


def split_off(self):
    """the figure which starts inside of this one follows it"""
    out = decide(self, self.vrow)
    self.vpolicy = out
    if out == RowErrPolicy.Raise:
        raise NotFound(message="row", query="")
    if out == RowErrPolicy.Stop:
        row = self.vrow
        meta = {"fig_id": self.vghost["quirk"][2]}
        if doc.figure_title(row) is not None:
            meta["title"] = doc.figure_title(row)
        yield from self.vparse(meta, rest_of(row))


def handler(spec, rev, fig, kind, quirk):
    cls = QUIRKS_MAP[(spec, rev)].fig_extractor_overrides[fig]

    def build(B):
        o = extractor(B, cls, cols=(kind, "description"), quirk=quirk)
        o.attrs["vrow"], o.attrs["vpolicy"] = B.opq("elem", "row"), None
        return [o], {}

    for name, base, spec in (("a malformed row", one_row, split_off), ("well-formed", no_row, no_row)):
        def setup(I, env, B, base=base):
            env.contracts = {**env.contracts, M + "StructTableExtractor.__call__": Stand(base)}

        Contract(f"{cls.__module__}:{cls.__qualname__}.__call__", spec, build, variant=f"figure {fig}, {name}", setup=setup,
                 frame=lambda I, o: (I.getattr(o, "linter"), I.getattr(o, "vpolicy")), yields=structs.ENTITY, props=["C15", "C14"], use=False)


_seen = set()
for (_s, _r), _q in QUIRKS.items():
    for _f, (_k, _t, _n) in _q.get("split", {}).items():
        handler(_s, _r, _f, _k, ("split", _t, _n))
    for _f, _t in _q.get("ignore_rows", {}).items():
        if (_f, _t) not in _seen:
            _seen.add((_f, _t))
            handler(_s, _r, _f, "bytes", ("ignore", _t))
