"""Contracts of spex.jsonspec.rowiter (C08): what the rows of a table are when
cells span several rows.

Elements are values here: a copy of an element is the same value, an element
without an attribute is another one, and a row that is put together is known by
its tag and its cells (its attributes are not observed)."""
import z3

from pyvc import libmodels, models
from pyvc.core import Atom, Blk, BoolS, ObjS, PList, PObj, SBool, SOpq, SStr, StrS, T, Unit, Unsupported, ufn
from pyvc.interp import Bound, Model
from pyvc.mark import opaque, prim
from pyvc.verify import Contract
from . import rows, structs, xmlspec
from .base import Fold, Loop, fold, loop
from .xmlspec import xp

from lxml import etree
import copy

R = "spex.jsonspec.rowiter:"
TD = T.Opq("elem", "td")
ENTRY = T.Tuple((T.int, T.Tuple((TD, T.int))))
ENTRIES = T.List(ENTRY)
A = libmodels.OPQ_ATTR


# elements as values -----------------------------------------------------------
class Own(SOpq):
    """a copy which the function itself made, and may change"""

    __slots__ = ("serial", "used")


def _own(I, e):
    o = Own("elem", e.t, "td" if is_td(e) else None)
    I.ctx.alloc(o)
    return o


def is_td(e):
    return e.kind == "td" or z3.is_app(e.t) and e.t.decl().name() == ufn("xp:./td", ObjS, z3.IntSort(), ObjS).name()


A[("elem", "__copy__")] = _own
A[("elem", "__deepcopy__")] = lambda I, e: e


def without_t(t, k):
    return ufn(f"elem.without:{k}", ObjS, ObjS)(t)


class Attrib(SOpq):
    """the attributes of an element"""

    __slots__ = ("of",)


def _attrib(I, e):
    a = Attrib("attrib", ufn("elem.attrib", ObjS, ObjS)(e.t))
    a.of = e
    return a


def has_attr(I, t, k):
    while z3.is_app(t) and t.num_args() == 1 and t.decl().name().startswith("elem.without"):
        if t.decl().eq(ufn(f"elem.without:{k}", ObjS, ObjS)):
            return None, t
        t = t.arg(0)
    return ufn(f"elem.has@{k}", ObjS, BoolS)(t), t


def attr_get(I, e, k, default=None):
    k = I.resolve(k)
    if not isinstance(k, str):
        raise Unsupported("attribute by computed name")
    h, t = has_attr(I, e.t, k)
    if h is None or not I.ctx.branch(h):
        return default
    v = I.ctx.mkstr(ufn(f"elem@{k}", ObjS, StrS)(t))
    if k in ("colspan", "rowspan"):  # regular tables: the spans are numbers
        I.ctx.assume(I.ctx.str_app("isint", models._isint, v, "bool").t)
    return v


def attr_del(I, o, k):
    e = o.of
    k = I.resolve(k)
    h, t = has_attr(I, e.t, k)
    if h is None or not I.ctx.branch(h):
        raise I.exc(KeyError, k)
    if not isinstance(e, Own):
        raise Unsupported("the table itself is changed")
    if any(e.serial < lp.serial0 for lp in I.ctx.loops):
        raise Unsupported("a copy from outside of the loop is changed")
    e.t = without_t(e.t, k)


def attr_pop(I, o, k, *d):
    h, _ = has_attr(I, o.of.t, I.resolve(k))
    if d and (h is None or not I.ctx.branch(h)):
        return d[0]
    v = attr_get(I, o.of, k)
    attr_del(I, o, k)
    return v


def attr_items(I, o):
    a = Atom("elem.attribs", (o.of.t,), shape=T.Tuple((T.str, T.str)))
    return PList(I.ctx, [Blk(a, z3.IntVal(0), a.length(I.ctx))])


A[("elem", "get")] = attr_get
A[("elem", ".attrib")] = _attrib
A[("attrib", "get")] = lambda I, o, *a: attr_get(I, o.of, *a)
A[("attrib", "pop")] = attr_pop
A[("attrib", "__delitem__")] = attr_del
A[("attrib", "items")] = attr_items


# rows which are put together ----------------------------------------------------
class Built:
    """a new element: its tag and its children"""


def _element(I, tag, *a, **k):
    return PObj(I.ctx, Built, {"tag": tag, "kids": PList(I.ctx), "attrib": SOpq("rowattrib", z3.Const("rowattrib", ObjS))})


A[("rowattrib", "__setitem__")] = lambda I, o, k, v: None
A[("rowattrib", "update")] = lambda I, o, *a, **k: None
models.BUILTINS[etree.Element] = _element
libmodels.OBJ_ATTR[("Built", "append")] = lambda I, a, k: models.list_append(I, a[0].attrs["kids"], I.resolve(a[1]))
libmodels.OBJ_ATTR[("Built", "set")] = lambda I, a, k: None
libmodels.OBJ_ATTR[("Built", "extend")] = lambda I, a, k: I.list_extend(a[0].attrs["kids"], a[1])


def kids_of(I, e, q):
    if q != "./td":
        raise Unsupported(f"query {q} on a new element")
    for s in e.attrs["kids"].segs:
        v = s.v if isinstance(s, Unit) else s.atom.at(I.ctx, z3.Int("kid"))
        if not isinstance(v, SOpq) or not is_td(v):
            raise Unsupported("children of unknown tag")
    return PList(I.ctx, list(e.attrs["kids"].segs))


libmodels.OPQ_BUILT.add(("elem", "Built"))
libmodels.OPQ_KIND["td"] = is_td
xmlspec.BUILT.append((Built, kids_of))


def _joined(I, tr, line):
    return PObj(I.ctx, Built, {"tag": I.getattr(tr, "tag"), "kids": PList(I.ctx, list(line.segs)), "attrib": SOpq("rowattrib", z3.Const("rowattrib", ObjS))})


@prim(_joined)
def joined(tr, line):
    row = etree.Element(tr.tag)
    for k, v in tr.attrib.items():
        row.attrib[k] = v
    row.text = tr.text
    for td in line:
        row.append(copy.deepcopy(td))
    return row


def _without(I, e, k):
    h, t = has_attr(I, e.t, k)
    return e if h is None or not I.ctx.branch(h) else SOpq("elem", without_t(e.t, k), "td" if is_td(e) else None)


@prim(_without)
def without(e, k):
    e = copy.copy(e)
    e.attrib.pop(k, None)
    return e


# the specification ---------------------------------------------------------------
def span(td):
    return int(td.get("colspan", 1))


@opaque(ENTRIES)
def fewer(alst):
    """the carried cells, one row further down"""
    return [(ndx, (elem, count - 1)) for ndx, (elem, count) in alst if count > 1]


def place_step(ndx, st, e):
    if ndx < e[1][0]:
        return ("STOP", {"at": e[0]})
    return st


PLACE = Fold("place", {"at": T.int}, lambda ndx: {"at": 0}, place_step)


@opaque(ENTRIES)
def inserted(alst, ndx, elem, count):
    """ordered by column"""
    st = fold(PLACE, enumerate(alst), ndx)
    if st["stopped"]:
        return alst[: st["at"]] + [(ndx, (elem, count))] + alst[st["at"]:]
    return alst + [(ndx, (elem, count))]


LINE = {"line": T.List(TD), "col": T.int, "off": T.opt(T.int), "elem": TD, "rest": ENTRIES}


def carried_step(line, col, off, elem, rest, st):
    """a cell from above is next"""
    line = st["line"]
    line.append(st["elem"])
    col = st["col"] + span(st["elem"])
    rest = st["rest"]
    if len(rest) > 0:
        return {"line": line, "col": col, "off": rest[0][0], "elem": rest[0][1][0], "rest": rest[1:]}
    return {"line": line, "col": col, "off": None, "elem": st["elem"], "rest": rest}


CARRIED = Loop("carried", LINE, lambda line, col, off, elem, rest: {"line": list(line), "col": col, "off": off, "elem": elem, "rest": list(rest)},
               lambda line, col, off, elem, rest, st: st["off"] is not None and st["off"] == st["col"], carried_step)


def line_step(alst, st, td):
    s = loop(CARRIED, st["line"], st["col"], st["off"], st["elem"], st["rest"])
    line = s["line"]
    line.append(td)
    return {"line": line, "col": s["col"] + span(td), "off": s["off"], "elem": s["elem"], "rest": s["rest"]}


MERGE = Fold("merge", LINE, lambda alst: {"line": [], "col": 0, "off": alst[0][0], "elem": alst[0][1][0], "rest": alst[1:]}, line_step)


@opaque(T.List(TD))
def merged(row, alst):
    """the cells of a row and those from above, by column"""
    st = fold(MERGE, xp(row, "./td"), alst)
    line = st["line"]
    if st["off"] is not None and st["off"] == st["col"]:
        line.append(st["elem"])
    return line + [e[1][0] for e in st["rest"]]


def spans_step(alst, st, td):
    n = int(td.get("rowspan", 1))
    alst = st["alst"]
    if n > 1:
        alst = inserted(alst, st["column"], without(td, "rowspan"), n)
    return {"alst": alst, "column": st["column"] + span(td)}


SPANS = Fold("spans", {"alst": ENTRIES, "column": T.int}, lambda alst: {"alst": list(alst), "column": 0}, spans_step)


def rows_step(st, tr):
    alst, out = st["alst"], st["out"]
    if len(xp(tr, "./th")) > 0:
        out.append(tr)
    elif len(xp(tr, "./td")) > 0:
        row = tr if len(alst) == 0 else joined(tr, merged(tr, alst))
        alst = fold(SPANS, xp(row, "./td"), alst)["alst"]
        out.append(row)
    return {"out": out, "alst": fewer(alst)}


ROWS = Fold("rows", {"out": T.List(T.Opq("elem")), "alst": ENTRIES}, lambda: {"out": [], "alst": []}, rows_step)


def all_rows(tbl):
    yield from fold(ROWS, xp(tbl, "./tr"))["out"]


# contracts -----------------------------------------------------------------------
def insert_spec(alst, ndx, elem, count):
    new = inserted(alst, ndx, elem, count)
    alst.clear()
    alst.extend(new)


def rows_called(tbl):
    yield from structs.rows_of(tbl)


def merge_spec(row, alst):
    yield from merged(row, alst)


def nonempty(B):
    l = B.seq(ENTRY, "alst")
    B.ctx.axiom_once(("nonempty", "alst"), l.segs[0].hi > 0)
    return l


def local(fr, name):
    v = fr.vars.get(name)
    if name not in fr.vars:
        raise Unsupported(f"no local {name}")
    return v


def entries_of(I):
    """the cells carried over, where a loop over the cells of a row is entered"""
    vs = I.loop_frame.vars
    v = vs.get("alst")
    if v is None:
        cand = [w for w in vs.values() if isinstance(w, PList) and w.segs and all(is_entry(g) for g in w.segs)]
        cand = [w for n, w in enumerate(cand) if not any(w is x for x in cand[:n])]
        if len(cand) != 1:
            return None
        v = cand[0]
    v = I.resolve(v)
    return PList(I.ctx, list(v.segs)) if isinstance(v, PList) else None


def is_entry(g):
    if isinstance(g, Unit):
        return isinstance(g.v, tuple) and len(g.v) == 2 and isinstance(g.v[1], tuple)
    return repr(g.atom.shape) == repr(ENTRY)


def spans_rule(I):
    def make(blk):
        alst = entries_of(I)
        return None if alst is None else SPANS.at(alst)
    return make


def carried_loop(I, B, a):
    fr = I.loop_frame
    return CARRIED.at(PList(I.ctx, list(I.yielded.segs)), local(fr, "col_off"), local(fr, "elem_off"), local(fr, "elem"), PList(I.ctx, list(I.resolve(local(fr, "rest")).segs)))


Contract(R + "alst_count_decr", fewer, lambda B: ([B.seq(ENTRY, "alst")], {}), props=["C08"])
Contract(R + "alst_insert", insert_spec, lambda B: ([B.seq(ENTRY, "alst"), B.int("ndx"), B(TD, "elem"), B.int("count")], {}), reveal=[inserted],
         folds=lambda I, B, a: [(I.call(enumerate, [a[0]], {}), PLACE.at(a[1]))], props=["C08"])
Contract(R + "sorted_row_children", merge_spec, lambda B: ([B.opq("elem", "row"), nonempty(B)], {}), reveal=[merged],
         folds=lambda I, B, a: [(I.call(xp, [a[0], "./td"], {}), MERGE.at(a[1]))], loops=[carried_loop], props=["C08"])
Contract(R + "row_iter", all_rows, called=rows_called, args=lambda B: ([B.opq("elem", "tbl")], {}),
         folds=lambda I, B, a: [(I.call(xp, [a[0], "./tr"], {}), ROWS.at())],
         fold_rules=lambda I, B, a: [(n, spans_rule(I)) for n in ("xp:./td", "items:" + repr(TD)[:60])], props=["C08"])
