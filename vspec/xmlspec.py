"""Contracts of spex.xml and spex.jsonspec.queries, and the primitives of the
XML theory: `xp` (children selected by a query, in document order) and `txt`
(the stripped text content of an element)."""
import re

import z3

from pyvc.core import original, Atom, Blk, ObjS, PList, PObj, SInt, SOpq, SStr, StrS, T, Unit, Unsupported, as_int_term, ufn
from pyvc import libmodels
from pyvc.mark import opaque, prim

_STEP = re.compile(r"^\./([\w:*]+)\[(\d+)\](/.*)?$")


BUILT = []  # (class of elements which were put together, their children)


def sym_xp(I, e, q):
    e, q = I.resolve(e), I.resolve(q)
    for cls, kids in BUILT:
        if isinstance(e, PObj) and e.cls is cls:
            return kids(I, e, q)
    if not isinstance(e, SOpq):
        raise Unsupported(f"query on {e!r}")
    if isinstance(q, SStr):
        a = Atom("xp?", (e.t, q.t), shape=T.Opq("elem"))
        return PList(I.ctx, [Blk(a, z3.IntVal(0), a.length(I.ctx))])
    if not q.startswith(("./", ".//", "//")):
        q = "./" + q
    m = _STEP.match(q)
    if m:
        tag, k, rest = m.group(1), int(m.group(2)), m.group(3)
        a = Atom(f"xp:./{tag}", (e.t,), shape=T.Opq("elem"))
        if not I.ctx.branch(a.length(I.ctx) >= k):
            return PList(I.ctx, [])
        x = a.at(I.ctx, z3.IntVal(k - 1))
        if rest:
            return sym_xp(I, x, "." + rest)
        return PList(I.ctx, [Blk(a, z3.IntVal(k - 1), z3.IntVal(k))])
    attr = "@" in re.sub(r"\[[^\]]*\]", "", q).split("/")[-1]
    a = Atom(f"xp:{q}", (e.t,), shape=T.str if attr else T.Opq("elem"))
    return PList(I.ctx, [Blk(a, z3.IntVal(0), a.length(I.ctx))])


@prim(sym_xp)
def xp(e, q):
    return e.xpath(q, namespaces=e.nsmap)


@opaque(T.str)
def txt(e):
    return "".join(e.itertext()).strip()


def _itertext(I, e, *tags):
    a = Atom("itertext", (e.t,), shape=T.str)
    return PList(I.ctx, [Blk(a, z3.IntVal(0), a.length(I.ctx))])


libmodels.OPQ_ATTR[("elem", "itertext")] = _itertext
libmodels.OPQ_ATTR[("elem", "xpath")] = lambda I, e, q, namespaces=None: sym_xp(I, e, q)
libmodels.OPQ_ATTR[("elem", ".tag")] = lambda I, e: I.ctx.mkstr(ufn("elem.tag", ObjS, StrS)(e.t))


def _parent(I, e):
    if z3.is_app(e.t) and e.t.num_args() == 2 and re.fullmatch(r"xp:\./[\w*]+", original(e.t.decl().name())):
        return SOpq("elem", e.t.arg(0))  # found as a child
    return SOpq("elem", ufn("elem.parent", ObjS, ObjS)(e.t))


libmodels.OPQ_ATTR[("elem", "getparent")] = _parent
libmodels.OPQ_ATTR[("elem", "remove")] = lambda I, e, x: I.effect("remove", e, I.resolve(x))
libmodels.OPQ_ATTR[("elem", ".nsmap")] = lambda I, e: SOpq("nsmap", ufn("nsmap", ObjS, ObjS)(e.t))


from spex.jsonspec.exceptions import XPathElementNotFoundException as NotFound
from spex.jsonspec.exceptions import LabelExtractionError as LabelError


def elems(cls, e, query):
    return xp(e, query)


def elem_first(cls, e, query):
    r = xp(e, query)
    return r[0] if len(r) > 0 else None


def elem_first_req(cls, e, query):
    r = xp(e, query)
    if len(r) == 0:
        raise NotFound(message="not found", query=query)
    return r[0]


def contains_th(element):
    return len(xp(element, "./th")) > 0


def attrs(cls, e, query):
    return xp(e, query)


def attr_first(cls, e, query):
    r = xp(e, query)
    return r[0] if len(r) > 0 else None


def attr_first_req(cls, e, query):
    r = xp(e, query)
    if len(r) == 0:
        raise RuntimeError("required attribute")
    return r[0]
