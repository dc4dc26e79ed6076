"""Contracts of the document level of the second stage (C09, C10, C12)."""
import z3

from spex.jsonspec.extractors import structtable, valuetable
from spex.jsonspec.extractors.helpers import StructTableMapping, ValueTableMapping
from pyvc.core import Atom, Blk, BoolS, PDict, PList, StrS, T, Unit, ufn
from pyvc.mark import opaque, prim
from pyvc.verify import Contract
from . import base, doc, structs
from .base import Fold, fold
from .structs import ENTITY, ISSUE
from .xmlspec import txt, xp

D = "spex.jsonspec.document:"
DP = D + "DocumentParser."
META = T.rec(opt=("title", "parent_fig_id"), title=T.str, fig_id=T.str, parent_fig_id=T.str)
TOP = T.rec(title=T.str, fig_id=T.str)
ANY_ISSUE = T.Tuple((T.str, T.str, T.opt(T.str), T.rec(opt=("title", "got", "expected"), title=T.str, got=T.str, expected=T.str)))


def parser(B, cls=None, over=None):
    from spex.jsonspec.document import DocumentParser
    from spex.jsonspec.parserargs import ParserArgs

    a = B.raw(ParserArgs, output_dir=None, skip_fig_on_error=B.bool("skip"), verbose=B.bool("verbose"), lint_codes_ignore=B.new(list))
    p = B.new(cls or DocumentParser, a, B.opq("elem", "doc"), B.str("spec"), B.str("rev"))
    p.attrs["_DocumentParser__linter"] = B.new(base.TraceLinter)
    p.attrs["__ident__"] = (B.opq("doc", "self"),)
    # the state a document leaves behind is arbitrary
    for k, v in (("_DocumentParser__fig_id_missing_counter", B.int("missing", 0)), ("_unwind_parse_error", B.bool("told"))):
        if k in p.attrs:
            p.attrs[k] = v
    if over is not None:
        p.attrs["fig_extractor_overrides"] = PDict(B.ctx, [[B.str("figure"), over]])
    return p


def on_title(self, tr):
    return doc.figure_title(tr)


def on_id(self, title):
    fid = doc.figure_id(title)
    if fid is None:
        n = self._DocumentParser__fig_id_missing_counter
        self.linter.issue("T1008", f"FIG_ID_MISSING[{n}]", None, {"title": title})
        self._DocumentParser__fig_id_missing_counter = n + 1
        raise RuntimeError("no figure number")
    return fid


Contract(DP + "_on_extract_figure_title", on_title, lambda B: ([parser(B), B.opq("elem", "tr")], {}), props=["C09"])
Contract(DP + "_on_extract_figure_id", on_id, lambda B: ([parser(B), B.str("title")], {}), props=["C09"])


# headers -------------------------------------------------------------------
def hdr_init(fid):
    return {"hdrs": [], "issues": []}


def hdr_step(fid, st, cell):
    h = doc.header_text(cell)
    r = doc.HDR_SYNONYMS.get(h)
    if r is not None:
        st["issues"].append(("T1006", fid, None, {"got": h, "expected": r}))
        h = r
    st["hdrs"].append(h)
    return st


HDRS = Fold("headers", {"hdrs": T.List(T.str), "issues": T.List(ANY_ISSUE)}, hdr_init, hdr_step)


def headers(self, fid, tbl):
    st = fold(HDRS, xp(tbl, "./tr[1]/*"), fid)
    self.linter.extend(st["issues"])
    return st["hdrs"]


Contract(DP + "extract_tbl_headers", headers, lambda B: ([parser(B), B.str("fid"), B.opq("elem", "tbl")], {}),
         folds=lambda I, B, a: [(I.call(xp, [a[2], "./tr[1]/*"], {}), HDRS.at(a[1]))], props=["C09"])


# figures -------------------------------------------------------------------
def figs_init(n):
    return {"out": [], "issues": [], "missing": n, "removed": []}


def fig_table(tbl):
    inner = xp(tbl, "./tr[1]/td[1]/*[1]")
    if len(inner) > 0 and inner[0].tag == "table":
        return inner[0]
    return tbl


def figs_step(n, st, tbl):
    tbl = fig_table(tbl)
    first = xp(tbl, "./tr[1]")
    if len(first) == 0:
        return st
    st["removed"].append(("remove", first[0].getparent(), first[0]))
    title = doc.figure_title(first[0])
    if title is None:
        return st
    fid = doc.figure_id(title)
    if fid is None:
        m = st["missing"]
        st["issues"].append(("T1008", f"FIG_ID_MISSING[{m}]", None, {"title": title}))
        st["missing"] = m + 1
        return st
    st["out"].append(({"title": title, "fig_id": fid}, tbl))
    return st


FIGS = Fold("figures", {"out": T.List(T.Tuple((TOP, T.Opq("elem")))), "issues": T.List(ANY_ISSUE), "missing": T.int,
                        "removed": T.List(T.Tuple((T.str, T.Opq("elem"), T.Opq("elem"))))}, figs_init, figs_step)


def sym_removed(I, l):
    I.on_write(I.effects, "segs")
    I.effects.segs = I.effects.segs + list(I.resolve(l).segs)


@prim(sym_removed)
def perform(l):
    for _, parent, x in l:
        parent.remove(x)


def iter_figures(self):
    st = fold(FIGS, xp(self.doc, "./body/table"), self._DocumentParser__fig_id_missing_counter)
    perform(st["removed"])
    self._DocumentParser__fig_id_missing_counter = st["missing"]
    self.linter.extend(st["issues"])
    yield from st["out"]


Contract(DP + "iter_figures", iter_figures, lambda B: ([parser(B)], {}),
         folds=lambda I, B, a: [(I.call(xp, [I.getattr(a[0], "doc"), "./body/table"], {}), FIGS.at(I.getattr(a[0], "_DocumentParser__fig_id_missing_counter")))], props=["C09"])


# which kind of table, which columns ------------------------------------------
KIND_HDRS = {"BitsTableExtractor": ("bits",), "BytesTableExtractor": ("bytes",)}


@opaque(T.opt(T.Tuple((T.str, T.str, T.str))))
def chosen(kind, hdrs):
    """the headings of the (key, label, content) columns, None if the kind does not apply"""
    if kind == "ValueTableExtractor":
        k, l, c = doc.first_in(hdrs, doc.VALUE_HDRS), doc.first_in(hdrs, doc.VALUE_LABEL_HDRS), doc.first_in(hdrs, doc.VALUE_CONTENT_HDRS)
        if None in (k, l, c) and len(hdrs) == 2 and k == "value":
            o = doc.first_other(hdrs, "value")
            if o:
                l = c = o
    else:
        k, l, c = doc.first_in(hdrs, KIND_HDRS[kind]), doc.first_in(hdrs, doc.STRUCT_LABEL_HDRS), doc.first_in(hdrs, doc.STRUCT_CONTENT_HDRS)
    if None in (k, l, c):
        return None
    return (k, l, c)


def kind_of(cls):
    return next(k.__name__ for k in cls.__mro__ if k.__name__ in ("ValueTableExtractor", "BitsTableExtractor", "BytesTableExtractor"))


def can_apply(cls, hdrs):
    kind = kind_of(cls)
    m = chosen(kind, hdrs)
    if m is None:
        return None
    if kind == "ValueTableExtractor":
        return ValueTableMapping(m[0], m[1], m[2])
    return StructTableMapping(m[0], m[1], m[2])


def _cls(mod, name):
    return getattr(structtable if mod == "structtable" else valuetable, name)


F = "spex.jsonspec.extractors.figure:FigureExtractor."
for mod, cls in (("structtable", "BitsTableExtractor"), ("structtable", "BytesTableExtractor"), ("valuetable", "ValueTableExtractor")):
    Contract(F + "can_apply", can_apply, lambda B, cls=cls, mod=mod: ([_cls(mod, cls), B.seq(T.str, "hdrs")], {}), variant=cls, reveal=[chosen], props=["C09"])


# the columns an extractor works on: the last one with the heading chosen
def columns(self, doc_parser, entity_meta, tbl, tbl_hdrs, parse_fn, linter, mapping):
    last = {h: i for i, h in enumerate(tbl_hdrs)}
    self.doc_parser, self._parse = doc_parser, parse_fn
    self._FigureExtractor__entity_meta, self._FigureExtractor__tbl = entity_meta, tbl
    self._FigureExtractor__tbl_hdrs, self._FigureExtractor__linter = tbl_hdrs, linter
    key = mapping.value_column if self.__class__.__name__ == "ValueTableExtractor" else mapping.range_column
    k, l, c = last[key], last[mapping.label_column], last[mapping.content_column]
    if self.__class__.__name__ == "ValueTableExtractor":
        self._col_ndx_value = k
    else:
        self._col_ndx_range = k
    self._col_ndx_label = l
    self._col_ndx_content = c


def fresh_extractor(B, mod, name, mp):
    import spex.jsonspec.extractors.helpers as h

    cls = _cls(mod, name)
    m = B.new(getattr(h, mp), B.str("key"), B.str("label"), B.str("content"))
    kw = dict(doc_parser=B.opq("docparser", "dp"), entity_meta=B(META, "entity"), tbl=B.opq("elem", "tbl"), tbl_hdrs=B.seq(T.str, "hdrs"),
              parse_fn=B.opq("fn", "parse"), linter=B.new(base.TraceLinter), mapping=m)
    return [B.raw(cls)], kw


for mod, name, mp in (("structtable", "BitsTableExtractor", "StructTableMapping"), ("structtable", "BytesTableExtractor", "StructTableMapping"), ("valuetable", "ValueTableExtractor", "ValueTableMapping")):
    Contract(f"spex.jsonspec.extractors.{mod}:{'ValueTableExtractor' if mod == 'valuetable' else 'StructTableExtractor'}.__init__", columns,
             lambda B, mod=mod, name=name, mp=mp: fresh_extractor(B, mod, name, mp), variant=name, props=["C09", "C04", "C05"], use=False, frame_on_raise=False)


# one figure ------------------------------------------------------------------
def sym_outcome(I, e):
    """what an extractor does with its table: an arbitrary list of entities, arbitrary
    issues, success or failure, and whether a failure inside was already reported;
    a function of the extractor's class and arguments"""
    a = e.attrs
    sk, terms = I.flatten([e.cls.__name__, *(a["_FigureExtractor__" + n] for n in ("entity_meta", "tbl", "tbl_hdrs")), a["vmap"]])
    ents = Atom("extracted" + sk, tuple(terms), shape=ENTITY)
    iss = Atom("found" + sk, tuple(terms), shape=ANY_ISSUE)
    from pyvc.core import SBool
    b = [SBool(ufn(n + sk, *[t.sort() for t in terms], BoolS)(*terms)) for n in ("fails", "told")]
    return tuple([PList(I.ctx, [Blk(x, z3.IntVal(0), x.length(I.ctx))]) for x in (ents, iss)] + b)


@prim(sym_outcome)
def outcome(e):
    raise NotImplementedError


def run_extractor(self):
    ents, issues, fails, told = outcome(self)
    yield from ents
    self._FigureExtractor__linter.extend(issues)
    self.doc_parser._unwind_parse_error = told
    if fails:
        raise ValueError("table")


def store(self, doc_parser, entity_meta, tbl, tbl_hdrs, parse_fn, linter, mapping):
    self.doc_parser, self._parse = doc_parser, parse_fn
    self._FigureExtractor__entity_meta, self._FigureExtractor__tbl = entity_meta, tbl
    self._FigureExtractor__tbl_hdrs, self._FigureExtractor__linter = tbl_hdrs, linter
    self.vmap = (mapping.value_column if self.__class__.__name__ == "ValueTableExtractor" else mapping.range_column, mapping.label_column, mapping.content_column)
    self.__post_init__()


class Stand:
    """a stand-in contract within one verification"""
    use = True

    def __init__(self, spec):
        self.spec = self.called = spec


def abstract_extractors(I, env, B):
    env.contracts = dict(env.contracts)
    for m, c in (("structtable", "StructTableExtractor"), ("valuetable", "ValueTableExtractor")):
        env.contracts[f"spex.jsonspec.extractors.{m}:{c}.__call__"] = Stand(run_extractor)
        env.contracts[f"spex.jsonspec.extractors.{m}:{c}.__init__"] = Stand(store)


def title_ctx(meta):
    return {"title": meta["title"]} if "title" in meta else {}


def parse_figure(self, meta, tbl):
    fid = meta["fig_id"]
    self._unwind_parse_error = False
    hdrs = headers(self, fid, tbl)
    cls = self.fig_extractor_overrides.get(fid)
    contained = self.args.skip_fig_on_error and "parent_fig_id" not in meta
    if cls is not None:
        m = can_apply(cls, hdrs)
        if m is None:
            if not contained:
                raise RuntimeError("columns")
            self.linter.issue("T1000", fid, None, title_ctx(meta))
            return
    else:
        cls = structtable.BytesTableExtractor
        m = can_apply(cls, hdrs)
        if m is None:
            cls = valuetable.ValueTableExtractor
            m = can_apply(cls, hdrs)
        if m is None:
            cls = structtable.BitsTableExtractor
            m = can_apply(cls, hdrs)
        if m is None:
            self.linter.issue("T1007", fid, None, {"columns": hdrs})
            return
    ents, issues, fails, told = outcome(make(cls, self, meta, tbl, hdrs, m))
    yield from ents
    self.linter.extend(issues)
    self._unwind_parse_error = told
    if fails:
        if not told:
            self._unwind_parse_error = True
            self.linter.issue("T1000", fid, None, title_ctx(meta))
        if not contained:
            raise ValueError("figure")


def make(cls, self, meta, tbl, hdrs, m):
    return cls(doc_parser=self, entity_meta=meta, tbl=tbl, tbl_hdrs=hdrs, parse_fn=None, linter=self.linter, mapping=m)


Contract(DP + "_on_parse_fig", parse_figure, lambda B: ([parser(B), B(META, "meta"), B.opq("elem", "tbl")], {}), setup=abstract_extractors,
         yields=ENTITY, props=["C09", "C10", "C14"])
for _c in (structtable.BytesTableExtractor, structtable.BitsTableExtractor, valuetable.ValueTableExtractor):
    # a figure for which a class is given
    Contract(DP + "_on_parse_fig", parse_figure, lambda B, c=_c: ([parser(B, over=c), B(META, "meta"), B.opq("elem", "tbl")], {}), setup=abstract_extractors,
             yields=ENTITY, variant=f"given {_c.__name__}", use=False, props=["C09", "C10", "C14"])


# the whole document ----------------------------------------------------------
def sym_figure_outcome(I, self, meta, tbl):
    sk, terms = I.flatten([meta, tbl, self])
    from pyvc.core import SBool
    x, y = (Atom(n + sk, tuple(terms), shape=sh) for n, sh in (("figure", ENTITY), ("figure_issues", ANY_ISSUE)))
    return tuple([PList(I.ctx, [Blk(a, z3.IntVal(0), a.length(I.ctx))]) for a in (x, y)] + [SBool(ufn("figure_fails" + sk, *[t.sort() for t in terms], BoolS)(*terms))])


@prim(sym_figure_outcome)
def figure_outcome(self, meta, tbl):
    """what parse_figure yields and reports, and whether it raises: arbitrary"""
    raise NotImplementedError


def any_figure(self, meta, tbl):
    ents, issues, fails = figure_outcome(self.linter.owner, meta, tbl)
    yield from ents
    self.linter.extend(issues)
    if fails:
        raise ValueError("figure")


def doc_init(owner, n):
    return {"out": [], "issues": [], "missing": n, "removed": []}


def doc_step(owner, n, st, tbl):
    """top-level tables, in order; the first failing one (if failures are not contained) ends the run"""
    tbl = fig_table(tbl)
    first = xp(tbl, "./tr[1]")
    if len(first) == 0:
        return st
    st["removed"].append(("remove", first[0].getparent(), first[0]))
    title = doc.figure_title(first[0])
    if title is None:
        return st
    fid = doc.figure_id(title)
    if fid is None:
        m = st["missing"]
        st["issues"].append(("T1008", f"FIG_ID_MISSING[{m}]", None, {"title": title}))
        st["missing"] = m + 1
        return st
    ents, issues, fails = figure_outcome(owner, {"title": title, "fig_id": fid}, tbl)
    st["out"].extend(ents)
    st["issues"].extend(issues)
    if fails:
        return ("STOP", st)
    return st


DOC = Fold("document", {"out": T.List(ENTITY), "issues": T.List(ANY_ISSUE), "missing": T.int,
                        "removed": T.List(T.Tuple((T.str, T.Opq("elem"), T.Opq("elem"))))}, doc_init, doc_step)


def parse_document(self):
    st = fold(DOC, xp(self.doc, "./body/table"), self.linter.owner, self._DocumentParser__fig_id_missing_counter)
    perform(st["removed"])
    self._DocumentParser__fig_id_missing_counter = st["missing"]
    self.linter.extend(st["issues"])
    yield from st["out"]
    if st["stopped"]:
        raise ValueError("figure")


def abstract_figures(I, env, B):
    env.contracts = dict(env.contracts)
    env.contracts[DP + "_on_parse_fig"] = Stand(any_figure)


def doc_parser(B):
    p = parser(B)
    p.attrs["_DocumentParser__linter"].attrs["owner"] = B.opq("doc", "self")
    return p


Contract(DP + "parse", parse_document, lambda B: ([doc_parser(B)], {}), setup=abstract_figures, inline={DP + "iter_figures"},
         folds=lambda I, B, a: [(I.call(xp, [I.getattr(a[0], "doc"), "./body/table"], {}), DOC.at(B.opq("doc", "self"), I.getattr(a[0], "_DocumentParser__fig_id_missing_counter")))],
         yields=ENTITY, props=["C09", "C10", "C12", "C14"])
