import z3

from pyvc.core import Atom, Blk, PList, T, build, ufn, BoolS, StrS
from pyvc.verify import Contract
from . import base, structs, values, xmlspec
from .contracts_struct import parsed, H

V = "spex.jsonspec.extractors.valuetable:"


def sym_override(I, args, kw):
    """the label override table of the document: an arbitrary partial map"""
    sk, terms = I.flatten(args[0])
    sorts = [t.sort() for t in terms]
    return build(I.ctx, T.opt(T.str), lambda suf, so: ufn("override" + sk + suf, *sorts, so)(*terms), "override")


class OverrideTable:
    def __init__(self, fn):
        self.fn = fn

    def get(self, key, default=None):
        return self.fn(key)


class DocStub:
    def __init__(self, fn):
        self.label_overrides = OverrideTable(fn)


def extractor(B, cols=("value", "definition"), focus=None):
    import spex.jsonspec.extractors.valuetable as m
    from spex.jsonspec.extractors.helpers import ValueTableMapping

    mp = B.new(ValueTableMapping, value_column=cols[0], label_column=cols[1], content_column=cols[-1])
    pf = B.model(parsed, "parse_fn")
    ov = B.model(sym_override, "overrides")
    o = B.new(
        m.ValueTableExtractor, doc_parser=B.new(DocStub, ov),
        entity_meta=B(T.rec(opt=("title", "parent_fig_id"), title=T.str, fig_id=T.str, parent_fig_id=T.str), "entity"),
        tbl=B.opq("elem", "tbl"), tbl_hdrs=B.new(list, list(cols)), parse_fn=pf, linter=B.new(base.TraceLinter, focus), mapping=mp,
    )
    B.ghost(o, vparse=pf, voverrides=ov, vghost={"same": cols[1] == cols[-1], "cols": (0, 1, len(cols) - 1), "type": "values", "broken": False, "quirk": None})
    return o


LAYOUTS = (("value", "definition"), ("value", "attribute", "description"))

Contract(V + "ValueTableExtractor.validate_fields", values.validate_fields,
         lambda B: ([extractor(B), B.seq(T.rec(opt=("brief",), val=values.VAL, label=T.str, brief=T.str), "fields")], {}),
         folds=lambda I, B, a: [(a[1], values.CHECK.at(I.getattr(a[0], "fig_id")))], props=["C03"])
Contract(H + "rearrange_num_label", values.rearrange, lambda B: ([B.str("label")], {}), returns=T.str, props=["C06", "C14"])
Contract(H + "extract_content", values.first_paragraph, lambda B: ([B.opq("elem", "data")], {}), returns=T.opt(T.str), props=["C06", "C14"])
for cols in LAYOUTS:
    Contract(V + "ValueTableExtractor.__call__", values.value_table,
             lambda B, cols=cols: ([extractor(B, cols)], {}), variant="/".join(cols),
             folds=lambda I, B, a: [(I.call(structs.rows_of, [I.getattr(a[0], "tbl")], {}), values.VALUES.at(a[0]))],
             reveal=[values.content_label, values.attribute_label], yields=structs.ENTITY, props=["C05", "C11", "C14"])
