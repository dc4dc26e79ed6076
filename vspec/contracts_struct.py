import z3

from pyvc.core import Atom, Blk, PList, PObj, T
from pyvc.verify import Contract
from . import base, structs, xmlspec
from spex.xml import Xpath

M = "spex.jsonspec.extractors.structtable:"
RANGE = T.rec(low=T.union(T.int, T.str), high=T.union(T.int, T.str))
MAYBE_RANGE = T.union(T.str, RANGE)
STRUCT_FIELD = T.rec(opt=("brief",), label=T.str, range=MAYBE_RANGE, brief=T.str)


def parsed(I, args, kw):
    """the entities of a nested figure: an arbitrary list that depends on the
    entity handed over and on the table"""
    sk, terms = I.flatten([(a.attrs["tag"], PList(I.ctx, I.norm_segs(a.attrs["kids"].segs))) if isinstance(a, PObj) and a.cls.__name__ == "Built" else a for a in map(I.resolve, args)])
    a = Atom("parsed" + sk, tuple(terms), shape=structs.ENTITY)
    return PList(I.ctx, [Blk(a, z3.IntVal(0), a.length(I.ctx))])


def extractor(B, cls="BytesTableExtractor", focus=None, cols=("bytes", "description"), quirk=None):
    import spex.jsonspec.extractors.structtable as m
    from spex.jsonspec.extractors.helpers import StructTableMapping

    lin = B.new(base.TraceLinter, focus)
    hdrs = B.new(list, list(cols))
    mp = B.new(StructTableMapping, range_column=cols[0], label_column=cols[1], content_column=cols[-1])
    pf = B.model(parsed, "parse_fn")
    o = B.new(
        cls if isinstance(cls, type) else getattr(m, cls), doc_parser=B.opq("docparser", "dp"),
        entity_meta=B(T.rec(opt=("title", "parent_fig_id"), title=T.str, fig_id=T.str, parent_fig_id=T.str), "entity"),
        tbl=B.opq("elem", "tbl"), tbl_hdrs=hdrs, parse_fn=pf, linter=lin, mapping=mp,
    )
    o.attrs["__ident__"] = (B.opq("doc", "self"),)
    o.attrs["vparse"] = pf
    o.attrs["vghost"] = {"same": cols[1] == cols[-1], "cols": (0, 1, len(cols) - 1), "type": cols[0], "broken": False, "quirk": quirk}
    return o


Contract(M + "StructTableExtractor._parse_range", structs.parse_range,
         lambda B: ([extractor(B), B.str("value"), B.str("row_key")], {}), returns=structs.RANGE_VALUE, props=["C01", "C14"])
Contract(M + "StructTableExtractor._parse_dynamic_range", structs.parse_dynamic_range,
         lambda B: ([extractor(B), B.str("value")], {}), returns=structs.RANGE_VALUE, props=["C01", "C14"])
Contract(M + "StructTableExtractor._range_to_row_key", structs.range_to_row_key,
         lambda B: ([extractor(B), B(MAYBE_RANGE, "val")], {}), returns=T.str, props=["C01", "C14"])

Contract(M + "StructTableExtractor.validate_fields", structs.validate_fields,
         lambda B: ([extractor(B), B.seq(STRUCT_FIELD, "fields")], {}),
         folds=lambda I, B, a: [(a[1], structs.ORDER.at(a[1])), (a[1], structs.CHECK.at(I.getattr(a[0], "fig_id")))], props=["C02", "C03"])

H = "spex.jsonspec.extractors.helpers:"
Contract(H + "normalize_label", structs.normalize, lambda B: ([B.str("label")], {}), returns=T.str, props=["C06", "C14"])
Contract(H + "generate_acronym", structs.acronym, lambda B: ([B.str("text")], {}), props=["C06"])
Contract(H + "content_extract_brief", structs.brief_of, lambda B: ([B(T.opt(T.str), "content"), B.int("maxlen")], {}), returns=T.opt(T.str), props=["C07", "C14"])


def validate_label(lbl, fig_id, row_key, linter):
    if structs.invalid_label(lbl):
        linter.issue("L1004", fig_id, row_key, {"label": lbl})


Contract(H + "validate_label", validate_label,
         lambda B: ([B.str("lbl"), B.str("fig_id"), B.str("row_key"), B.new(base.TraceLinter)], {}), reveal=[structs.invalid_label], props=["C06"])


def extract_same(self, label, row_key):
    lbl, code = structs.same_column(label)
    if code is not None:
        structs.issue(self, code, row_key)
    return lbl


def extract_separate(self, label, row_key):
    lbl, code = structs.separate_column(label)
    if code is not None:
        structs.issue(self, code, row_key)
    return lbl


Contract(M + "StructTableExtractor._extract_label_same_column", extract_same,
         lambda B: ([extractor(B), B.str("label"), B.str("row_key")], {}), reveal=[structs.same_column], props=["C06"])
Contract(M + "StructTableExtractor._extract_label_separate_column", extract_separate,
         lambda B: ([extractor(B, cols=("bytes", "attribute", "description")), B.str("label"), B.str("row_key")], {}), reveal=[structs.separate_column], props=["C06"])
for cols in (("bytes", "description"), ("bytes", "attribute", "description")):
    Contract(M + "StructTableExtractor._parse_label" , structs.struct_label,
             lambda B, cols=cols: ([extractor(B, cols=cols), B.str("label"), B.str("row_key")], {}), variant=f"{len(cols)} columns", returns=T.str, props=["C06", "C14"])


def handle(self, content, range):
    return structs.special_field(content, range)


Contract(M + "StructTableExtractor.is_special_case", structs.is_special_case, lambda B: ([B.str("content")], {}), props=["C04"])
Contract(M + "StructTableExtractor.handle_special_case", structs.handle_special_case, lambda B: ([extractor(B), B.str("content"), B(structs.RANGE_VALUE, "range")], {}), returns=T.opt(structs.FIELD), props=["C04", "C14"])


def to_text(elem):
    return structs.txt(elem)


Contract("spex.xml:XmlUtils.to_text", to_text, lambda B: ([B.opq("elem", "elem")], {}), reveal=[structs.txt], returns=T.str, props=["C04", "C05", "C06", "C07", "C14"])


def subtable(self, entity_base, data):
    yield from structs.sub_entities(self, entity_base["fig_id"], entity_base["parent_fig_id"], data)


Contract("spex.jsonspec.extractors.figure:FigureExtractor.extract_data_sub_table", subtable, 
         lambda B: ([extractor(B), B(T.rec(fig_id=T.str, parent_fig_id=T.str), "ent"), B.opq("elem", "data")], {}), reveal=[structs.sub_entities],
         folds=lambda I, B, a: [(I.call(xmlspec.xp, [a[2], "./table"], {}), structs.SUB.at(a[0], I.getitem(a[1], "fig_id"), I.getitem(a[1], "parent_fig_id")))], yields=structs.ENTITY, props=["C11", "C14"])
for n in ("elems", "elem_first", "elem_first_req"):
    Contract("spex.xml:Xpath." + n, getattr(xmlspec, n), lambda B: ([Xpath, B.opq("elem", "e"), B.str("q")], {}), props=["C04", "C05", "C08", "C09", "C11"])
Contract("spex.jsonspec.queries:contains_th", xmlspec.contains_th, lambda B: ([B.opq("elem", "e")], {}), props=["C04", "C08"])

for cls, cols in (("BytesTableExtractor", ("bytes", "description")), ("BitsTableExtractor", ("bits", "description")), ("BytesTableExtractor", ("bytes", "attribute", "description"))):
    Contract(M + "StructTableExtractor.__call__", structs.struct_table,
             lambda B, cls=cls, cols=cols: ([extractor(B, cls, cols=cols)], {}), variant=f"{cols}", view=lambda I, r: None,
             folds=lambda I, B, a: [(I.call(structs.rows_of, [I.getattr(a[0], "tbl")], {}), structs.STRUCT.at(a[0]))], yields=structs.ENTITY, props=["C04", "C11", "C14"])

Contract("spex.jsonspec.queries:extract_possible_colspan", structs.colspan_text, lambda B: ([B.opq("elem", "e")], {}), props=["C04"])
