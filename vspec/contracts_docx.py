"""Contracts of the first stage: formatting, styles, rendering (C16-C20)."""
import ast
import dataclasses

import z3

from pyvc import libmodels, models
from pyvc.core import Atom, Blk, BoolS, IntS, MapAtom, ObjS, PDict, PList, PObj, PSet, SBool, SInt, SOpq, SStr, StrS, T, Unit, Unsupported, ufn
from pyvc.mark import opaque, prim
from pyvc.verify import TASKS, Contract
from spex.htmlspec import css as css_mod
from spex.htmlspec.docx import header as hd, styles as styles_mod
from spex.htmlspec.docx.runproperties import RunProperties, VertAlign
from . import base, world, xmlspec
from .base import Fold, fold
from .contracts_doc import Stand
from .xmlspec import xp

A = world.A

# formatting of a piece of text (C19) -------------------------------------------
RP = "spex.htmlspec.docx.runproperties:RunProperties."
P = "_RunProperties__"
ALIGN = {"baseline": "baseline", "subscript": "sub", "superscript": "super"}


def first(e, q):
    r = xp(e, q)
    return r[0] if len(r) > 0 else None


@opaque(T.Opq("css"))
def css_attrs(bold, italics, underline, strike, align, size, color):
    """the style sheet's view of a formatting: properties which are not set do not appear"""
    d = {}
    if bold is not None:
        d["font-weight"] = "bold" if bold else "normal"
    if italics is not None:
        d["font-style"] = "italic" if italics else "normal"
    if underline or strike:
        d["text-decoration-line"] = "underline line-through" if underline and strike else "underline" if underline else "line-through"
    if align is not None:
        d["vertical-align"] = ALIGN[align.name]
    if size is not None:
        d["font-size"] = f"{size / 2.0}pt"
    if color is not None:
        d["color"] = f"#{color}"
    return d


def set_props(self, bold, italics, underline, strike, align, size, color):
    self._RunProperties__bold, self._RunProperties__italics = bold, italics
    self._RunProperties__underline, self._RunProperties__strikethrough = underline, strike
    self._RunProperties__vert_align, self._RunProperties__size, self._RunProperties__color = align, size, color
    self._RunProperties__css_attrs = css_attrs(bold, italics, underline, strike, align, size, color)


def rp_init(self, *, bold, italics, underline, strikethrough, vert_align, size, color):
    if vert_align == "" or vert_align is None:
        a = None
    elif isinstance(vert_align, VertAlign):
        a = vert_align
    else:
        a = align_of(vert_align)
    if color is not None and len(color) != 6:
        color = None
    set_props(self, bold, italics, underline, strikethrough, a, None, color)


def align_of(name):
    for a in VertAlign:
        if name == a.name:
            return a
    raise KeyError(name)


libmodels.OPQ_CLASS["align"] = VertAlign
libmodels.OPQ_TRUTH["align"] = lambda I, x: True
ALIGNS = [None] + list(VertAlign)


def rp(B, n, align="any", derived=False):
    o = B.raw(RunProperties)
    d = dict(bold=B(T.opt(T.bool), n + ".bold"), italics=B(T.opt(T.bool), n + ".italics"), underline=B(T.opt(T.bool), n + ".underline"),
             strikethrough=B(T.opt(T.bool), n + ".strike"), vert_align=B(T.opt(T.Opq("align")), n + ".align") if align == "any" else align, size=None, color=B(T.opt(T.str), n + ".color"))
    for k, v in d.items():
        o.attrs[P + k] = v
    # the invariant of the class: a colour which is kept has six characters, and
    # the derived attributes are those of the fields
    c = o.attrs[P + "color"]
    B.ctx.axiom_once(("color", n), z3.Implies(c.tag == 1, ufn("strlen", StrS, IntS)(c.alts[1]().t) == 6))
    o.attrs[P + "css_attrs"] = B.I.call(compute, [o], {}) if derived else B.opq("css", n + ".css")
    return o


def compute(self):
    return css_attrs(*[getattr(self, P + n) for n in PROPS])


PROPS = ("bold", "italics", "underline", "strikethrough", "vert_align", "size", "color")
for a in ALIGNS:
    Contract(RP + "__compute_css_attrs", compute, lambda B, a=a: ([rp(B, "self", a)], {}), variant=str(getattr(a, "name", a)), reveal=[css_attrs], props=["C19"])


def init_args(B, va):
    return [B.raw(RunProperties)], dict(bold=B(T.opt(T.bool), "bold"), italics=B(T.opt(T.bool), "italics"), underline=B(T.opt(T.bool), "underline"),
                                        strikethrough=B(T.opt(T.bool), "strike"), vert_align=B.str("align") if va == "text" else B(T.opt(T.Opq("align")), "align"), size=None, color=B(T.opt(T.str), "color"))


for va in ("text", "constant"):
    Contract(RP + "__init__", rp_init, lambda B, va=va: init_args(B, va), variant=va, props=["C19"], use=False, frame_on_raise=False)


def merged(self, other):
    """properties of the other one take precedence where they are set"""
    if other is None:
        return self
    r = new_rp()
    v = []
    for n in PROPS:
        x = getattr(other, P + n)
        v.append(getattr(self, P + n) if x is None else x)
    set_props(r, *v)
    return r


@prim(lambda I: PObj(I.ctx, RunProperties, {}))
def new_rp():
    raise NotImplementedError


def copied(self):
    r = new_rp()
    for n in PROPS + ("css_attrs",):
        setattr(r, P + n, getattr(self, P + n))
    return r


Contract(RP + "__copy__", copied, lambda B: ([rp(B, "self", derived=True)], {}), props=["C19"])
Contract(RP + "merge", merged, lambda B: ([rp(B, "self"), rp(B, "other")], {}), variant="both", props=["C19"], use=False)
Contract(RP + "merge", merged, lambda B: ([rp(B, "self", None), None], {}), variant="nothing", props=["C19"], use=False)


# what a w:rPr says -------------------------------------------------------------
# An object of the class is a value for its users: merging is a function of both.
libmodels.OPQ_CLASS["rpr"] = RunProperties
libmodels.OPQ_TRUTH["rpr"] = lambda I, x: True


def rpr_merge(I, a, b):
    b = I.resolve(b)
    return a if b is None else SOpq("rpr", ufn("rpr.merge", ObjS, ObjS, ObjS)(a.t, b.t))


A[("rpr", "merge")] = rpr_merge
A[("rpr", ".css_attrs")] = lambda I, x: SOpq("css", ufn("rpr.css", ObjS, ObjS)(x.t))
OFF = ("0", "false", "off")


def on_off(e, q):
    """absent: inherited; present: on unless its value switches it off"""
    x = first(e, q)
    if x is None:
        return None
    v = first(x, "./@w:val")
    return True if v is None else v.strip() not in OFF


def underlined(e):
    x = first(e, "./w:u")
    return None if x is None else first(x, "./@w:val") != "none"


@opaque(T.Opq("rpr"))
def rpr_of(e):
    r = new_rp()
    color = first(e, "./w:color/@w:val")
    va = first(e, "./w:vertAlign/@w:val")
    set_props(r, on_off(e, "./w:b"), on_off(e, "./w:i"), underlined(e), on_off(e, "./w:strike"),
              None if va is None or va == "" else align_of(va), None, color if color is not None and len(color) == 6 else None)
    return r


def from_rpr(cls, e):
    if e is None:
        return None
    u = first(e, "./w:u")
    if u is not None and first(u, "./@w:val") is None:
        raise RuntimeError("underlining without a kind")
    return rpr_of(e)


Contract(RP + "from_rpr_elem", from_rpr, lambda B: ([RunProperties, B(T.opt(T.Opq("elem")), "rpr")], {}), reveal=[rpr_of], props=["C19"])


# styles ------------------------------------------------------------------------
ST = "spex.htmlspec.docx.styles:"


def over(base_rpr, r):
    """the properties of `r` take precedence over those it inherits"""
    if base_rpr is None:
        return r
    return base_rpr.merge(r)


@opaque(T.opt(T.Opq("rpr")))
def style_rpr(styles, kind, name):
    """the properties of the style of that kind and id"""
    return style_unfold(styles, kind, name)


def style_unfold(styles, kind, name):
    s = xp(styles, f"./w:style[@w:type = '{kind}'][@w:styleId = '{name}']")
    if len(s) == 0:
        raise xmlspec.NotFound(message="no such style", query="")
    own = from_rpr(None, first(s[0], "./w:rPr"))
    b = first(s[0], "./w:basedOn/@w:val")
    return own if b is None else over(style_rpr(styles, kind, b), own)


def resolver(B, n, kind=None):
    from spex.htmlspec.docx.styles import StyleResolver

    return B.raw(StyleResolver, _style_doc=B.opq("elem", n + ".doc"), _style_type=kind or B.str(n + ".kind"), _style_aliases=B(T.Map(T.str), n + ".aliases"))


Contract(ST + "StyleResolver.__get_style", lambda self, name: style_unfold(self._style_doc, self._style_type, name),
         lambda B: ([resolver(B, "styles"), B.str("name")], {}),
         called=lambda self, name: style_rpr(self._style_doc, self._style_type, name), props=["C19"])


def an_alias(names, name, st, a):
    st["alias_dct"][a.strip()] = name
    return st


ALIASES = Fold("aliases", {"alias_dct": T.Map(T.str)}, lambda names, name: {"alias_dct": dict(names)}, an_alias)


def a_style(st, s):
    n = first(s, "./@w:styleId")
    if n is None:
        return ("STOP", st)
    st["style_ids"][n] = n
    t = first(s, "./w:aliases/@w:val")
    return {"alias_dct": fold(ALIASES, (t or "").split(","), st["alias_dct"], n)["alias_dct"], "style_ids": st["style_ids"]}


STYLE_NAMES = Fold("style_names", {"alias_dct": T.Map(T.str), "style_ids": T.Map(T.str)}, lambda: {"alias_dct": {}, "style_ids": {}}, a_style)


def names_of(doc, kind):
    """every id is its own name; the other names are the aliases, the last one counts"""
    x = fold(STYLE_NAMES, xp(doc, f"./w:style[@w:type = '{kind}']"))
    if x["stopped"]:
        raise RuntimeError("required attribute")
    return {**x["alias_dct"], **x["style_ids"]}


def alias_rules(I, B, a):
    def make(b):
        s = SOpq("elem", elem_arg(b.atom.args[0]))
        st, _ = I.fold_state(STYLE_NAMES, alias_folds(I, B, a)[0][0].segs[0], s.t.arg(1))
        return ALIASES.at(I.state_get(st, "alias_dct"), I.call(first, [s, "./@w:styleId"], {}))
    return [("split[',']", make)]


def elem_arg(t):
    """the element whose attribute a text is"""
    while t.sort() != ObjS:
        t = t.arg(0)
    return t


def alias_folds(I, B, a):
    return [(I.call(xp, [a[0], f"./w:style[@w:type = '{a[1]}']"], {}), STYLE_NAMES)]


for k in ("paragraph", "character"):
    Contract(ST + "StyleResolver.__init_alias_dct", names_of, lambda B, k=k: ([B.opq("elem", "doc"), k], {}), folds=alias_folds, fold_rules=alias_rules, variant=k, props=["C19"])


def get_style(self, name):
    """a style is found by its id or one of its aliases"""
    return style_rpr(self._style_doc, self._style_type, self._style_aliases[name])


Contract(ST + "StyleResolver.get_style", get_style, lambda B: ([resolver(B, "styles"), B.str("name")], {}), props=["C19"])


# runs and paragraphs -----------------------------------------------------------
DC = "spex.htmlspec.docx.document:Document."


def document(B):
    from spex.htmlspec.docx.document import Document
    from spex.htmlspec.docx.styles import StylesDocument

    st = B.raw(StylesDocument, _pstyles=resolver(B, "pstyles", "paragraph"), _cstyles=resolver(B, "cstyles", "character"))
    d = B.raw(Document, _elem=B.opq("elem", "docxml"))
    d.attrs["_Document__styles"] = st
    d.attrs["__ident__"] = (B.opq("docx", "docx"),)
    return d


W = "{http://schemas.openxmlformats.org/wordprocessingml/2006/main}"


def run_formatting(self, e):
    """direct properties of the run over those of its character style"""
    if e.tag != W + "r":
        raise AssertionError("not a run")
    p = first(e, "./w:rPr")
    if p is None:
        return None
    own = from_rpr(None, p)
    sid = first(p, "./w:rStyle/@w:val")
    if sid is None:
        return own
    return over(get_style(self._Document__styles._cstyles, sid), own)


Contract(DC + "extract_r_rpr", run_formatting, lambda B: ([document(B), B.opq("elem", "run")], {}), props=["C19"])


# classes of the style sheet (C18) -----------------------------------------------
CS = "spex.htmlspec.css:"


class Out:
    """stands for a section of the code generator: what is written, apart from indentation.
    Adjacent literals are one token, so that it does not matter how a text is cut into calls."""

    def emit(self, *parts):
        put(self, *parts)
        return self

    def emitln(self, *parts):
        put(self, *parts, "\n")
        return self

    def indent(self):
        return self

    def dedent(self):
        return self


def sym_put(I, s, *parts):
    toks = I.getattr(s, "tokens")
    segs = list(toks.segs)
    for p in parts:
        p = I.resolve(p)
        if isinstance(p, SStr) and p.parts:
            bits = [x if isinstance(x, str) else SStr(x) for x in p.parts]
        elif isinstance(p, (str, SStr, SOpq)):
            bits = [p]
        else:
            raise Unsupported(f"written: {p!r}")
        for b in bits:
            if isinstance(b, str) and b == "":
                continue
            if isinstance(b, str) and segs and isinstance(segs[-1], Unit) and isinstance(segs[-1].v, str):
                segs[-1] = Unit(segs[-1].v + b)
            else:
                segs.append(Unit(b))
    I.on_write(toks, "segs")
    toks.segs = segs


@prim(sym_put)
def put(s, *parts):
    raise NotImplementedError


TOKENS = T.List(T.union(T.str, T.Opq("section")))


def section(B, n="s"):
    return B.raw(Out, tokens=B.seq(T.union(T.str, T.Opq("section")), n + ".before"))


def written(I, s):
    I.norm_segs(s.attrs["tokens"].segs)  # refuses what no invariant captures
    return PList(I.ctx, list(s.attrs["tokens"].segs))


def of_tokens(tokens):
    s = Out()
    s.tokens = tokens
    return s


def css_open(tokens, sel):
    s = of_tokens(list(tokens))
    s.emitln(f"{sel} {{")
    return {"tokens": s.tokens}


def css_decl(tokens, sel, st, item):
    of_tokens(st["tokens"]).emitln(f"{item[0]}: {item[1]};")
    return st


CSS_DECLS = Fold("css_decls", {"tokens": TOKENS}, css_open, css_decl)


def rule(s, selectors, attrs):
    """one rule with all declarations, in order"""
    sel = ", ".join(selectors) if isinstance(selectors, list) else selectors
    s.tokens = list(fold(CSS_DECLS, list(attrs.items()), list(s.tokens), sel)["tokens"])
    s.emitln("}")


def css_args(B, kind):
    sel = B.str("sel") if kind == "one" else [B.str("sel0"), B.str("sel1"), B.str("sel2")]
    return [section(B), sel, B(T.Map(T.str), "attrs")], {}


def css_folds(I, B, args):
    sel = args[1] if not isinstance(args[1], list) else I.call(I.getattr(", ", "join"), [args[1]], {})
    return [(I.call(I.getattr(args[2], "items"), [], {}), CSS_DECLS.at(written(I, args[0]), sel))]


# what users see: one token for each rule
@opaque(T.str)
def rule_token(selectors, attrs):
    raise NotImplementedError


def rule_called(s, selectors, attrs):
    s.tokens.append(rule_token(selectors, attrs))


for k in ("one", "several"):
    Contract(CS + "css_block", rule, lambda B, k=k: css_args(B, k), folds=css_folds, variant=k, called=rule_called, props=["C18"])


A[("cssobj", ".css_attrs")] = lambda I, x: PDict(I.ctx, base=MapAtom("css_attrs", (x.t,), T.str))
CACHE = "_CssCache__cache"


def cache(B, n="cache"):
    o = B.raw(css_mod.CssCache)
    o.attrs[CACHE] = PDict(B.ctx, base=MapAtom("cache", (B.opq("map", n).t,), T.str, T.Opq("cssobj")))
    o.attrs["_CssCache__prefix"] = B.str(n + ".prefix")
    o.attrs["_CssCache__counter"] = B.int(n + ".counter", 0)
    return o


def class_of(self, elem):
    """the class of a formatting: the one it has already, or else the next number"""
    if elem is None or elem.css_attrs == {}:
        return None
    known = self._CssCache__cache.get(elem)
    if known is not None:
        return known
    n = self._CssCache__counter
    self._CssCache__counter = n + 1
    name = f"{self._CssCache__prefix}{n}"
    self._CssCache__cache[elem] = name
    return name


# Users of the cache see its contents as one value, which each request may change.
@opaque(T.opt(T.str))
def class_in(hist, elem):
    raise NotImplementedError


@opaque(T.Opq("hist"))
def hist_after(hist, elem):
    raise NotImplementedError


def class_called(self, elem):
    if elem is None:
        return None
    r = class_in(self.hist, elem)
    self.hist = hist_after(self.hist, elem)
    return r


Contract(CS + "CssCache.get_clsname", class_of, lambda B: ([cache(B), B(T.opt(T.Opq("cssobj")), "elem")], {}), called=class_called, props=["C18"])


def rules(self, s):
    """one rule for each class, with the attributes of its formatting"""
    for obj, name in self._CssCache__cache.items():
        s.tokens.append(rule_token(f".{name}", obj.css_attrs))


Contract(CS + "CssCache.emit_rules", rules, lambda B: ([cache(B), section(B)], {}), props=["C18"])


def shading(self):
    return {"background-color": f"#{self.shd_fill}"}


def tcpr(B, n="tcpr"):
    from spex.htmlspec.parser import TcPr

    f = B.str(n + ".fill")
    B.ctx.axiom_once(("fill", n), ufn("strlen", StrS, IntS)(f.t) == 6)  # what _parse_table admits
    return B.raw(TcPr, shd_fill=f)


Contract("spex.htmlspec.parser:TcPr.css_attrs", shading, lambda B: ([tcpr(B)], {}), props=["C18"], use=False)
Contract(RP + "__eq__", lambda self, other: self._RunProperties__css_attrs == other._RunProperties__css_attrs,
         lambda B: ([rp(B, "self"), rp(B, "other")], {}), variant="formattings", props=["C18", "C19"], use=False)
Contract(RP + "__eq__", lambda self, other: False, lambda B: ([rp(B, "self"), B(T.union(T.none, T.str, T.int), "other")], {}), variant="others", props=["C18", "C19"], use=False)


# equal formattings have equal hashes: the hash depends on the attributes alone
def hashed(B):
    o = rp(B, "self")
    o.attrs[P + "css_attrs"] = PDict(B.ctx, base=MapAtom("css_attrs", (B.opq("css", "self.css").t,), T.str))
    return o


def only_css(I, r):
    ok = isinstance(r, (SInt, int)) and consts_of(I, r) <= {"self.css"}
    return ok


def consts_of(I, r):
    out, todo = set(), [r.t] if isinstance(r, SInt) else []
    while todo:
        t = todo.pop()
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(t))
        todo.extend(t.children())
    return out


Contract(RP + "__hash__", lambda self: True, lambda B: ([hashed(B)], {}), view=lambda I, r: True if r is True else only_css(I, r), props=["C18"], use=False)


def same_name(prefix, i, j):
    return f"{prefix}{i}" == f"{prefix}{j}"


# lemma: with get_clsname, whose counter only grows, classes of different formattings differ
Contract("vspec.contracts_docx:same_name", lambda prefix, i, j: i == j, lambda B: ([B.str("prefix"), B.int("i", 0), B.int("j", 0)], {}), variant="lemma", props=["C18"], use=False)


# rendering (C16-C18, C20) ---------------------------------------------------------
import html as html_mod

from spex.htmlspec import htmlrenderer as hr
from spex.htmlspec import parser as hp

HR = "spex.htmlspec.htmlrenderer:"
R = HR + "SpexHtmlRenderer."


def html_escape(I, s, quote=True):
    s, quote = I.resolve(s), I.resolve(quote)
    if isinstance(s, str) and isinstance(quote, bool):
        return html_mod.escape(s, quote)
    if quote is not True:
        raise Unsupported("escape without quotes")
    return I.ctx.mkstr(ufn("html.escape", StrS, StrS)(I.ctx.sterm(s)))


models.BUILTINS[html_mod.escape] = html_escape


@opaque(T.str)
def esc(text):
    """text as HTML; line breaks, which sections would lose, as character references"""
    return html_mod.escape(text).replace("\n", "&#10;")


Contract(HR + "escape", lambda text: esc(text), lambda B: ([B.str("text")], {}), reveal=[esc], props=["C17"])

ELEM = T.union(T.Opq("span"), T.Opq("para"), T.Opq("list"), T.Opq("table"))


def opq(kind, cls, /, **attrs):
    libmodels.OPQ_CLASS[kind] = cls
    libmodels.OPQ_TRUTH[kind] = lambda I, x: True
    for n, sh in attrs.items():
        A[(kind, "." + n)] = lambda I, x, n=n, sh=sh: models_build(I, sh, f"{kind}.{n}", x)


def models_build(I, sh, name, x):
    from pyvc.core import build

    if isinstance(sh, T.List):
        a = Atom(name, (x.t,), shape=sh.elem)
        return PList(I.ctx, [Blk(a, z3.IntVal(0), a.length(I.ctx))])
    return build(I.ctx, sh, lambda suf, so: ufn(name + suf, ObjS, so)(x.t), name)


opq("span", hp.Span, style=T.opt(T.Opq("rpr")), text=T.str)
opq("para", hp.Paragraph, spans=T.List(T.Opq("span")))
opq("item", hp.ListElem, elems=T.List(T.Opq("span")))
opq("list", hp.List, props=T.Opq("numlvl"), elems=T.List(T.union(T.Opq("item"), T.Opq("list"))), tag=T.str)
opq("numlvl", None, css_clsname=T.str, tag=T.str)
A[("list", ".tag")] = lambda I, x: I.getattr(I.getattr(x, "props"), "tag")
POINT = T.Obj(hp.Point, (("x", T.int), ("y", T.int)))
opq("cell", hp.TableCell, tag=T.str, elems=T.List(ELEM), span=POINT, origin=POINT, tc_pr=T.opt(T.Opq("tcpr")))
opq("tcpr", hp.TcPr, shd_fill=T.str)
libmodels.OPQ_ITER["row"] = lambda I, x: models_build(I, T.List(T.Opq("cell")), "row", x).segs
opq("table", hp.Table, rows=T.List(T.Opq("row")), id=T.opt(T.str))


def renderer(B):
    o = B.raw(hr.SpexHtmlRenderer)
    o.attrs["_css_txtfmt_cache"] = B.raw(css_mod.CssCache, hist=B.opq("hist", "texts"))
    o.attrs["_SpexHtmlRenderer__css_tcell_cache"] = B.raw(css_mod.CssCache, hist=B.opq("hist", "cells"))
    return o


def texts(self):
    return self._css_txtfmt_cache.hist


def cells(self):
    return self._SpexHtmlRenderer__css_tcell_cache.hist


class Ren:
    """stands for a renderer in the step of a fold: the two caches alone"""


def ren(h, c=None):
    r = Ren()
    r._css_txtfmt_cache, r._SpexHtmlRenderer__css_tcell_cache = Ren(), Ren()
    r._css_txtfmt_cache.hist, r._SpexHtmlRenderer__css_tcell_cache.hist = h, c
    return r


def take(self, s, st):
    """the state after a loop"""
    s.tokens = list(st["tokens"])
    self._css_txtfmt_cache.hist = st["texts"]
    if "cells" in st:
        self._SpexHtmlRenderer__css_tcell_cache.hist = st["cells"]


def part(kind):
    """what users of a rendering method see: one token, which depends on the part and on
    the classes in use, and new contents of the caches"""

    def tok(h, c, x):
        raise NotImplementedError

    def texts_after(h, c, x):
        raise NotImplementedError

    def cells_after(h, c, x):
        raise NotImplementedError

    fs = []
    for f, sh in ((tok, T.str), (texts_after, T.Opq("hist")), (cells_after, T.Opq("hist"))):
        f.__qualname__ = f"{kind}.{f.__name__}"
        fs.append(opaque(sh)(f))
    deep = kind in ("any", "table")

    def called(self, s, x):
        h, c = texts(self), cells(self) if deep else None
        s.tokens.append(fs[0](h, c, x))
        self._css_txtfmt_cache.hist = fs[1](h, c, x)
        if deep:
            self._SpexHtmlRenderer__css_tcell_cache.hist = fs[2](h, c, x)

    return called


def span_html(self, s, span):
    """the escaped text, in the class of its formatting if it has any"""
    cls = None if span.style is None else class_called(self._css_txtfmt_cache, span.style)
    s.emit("<span>" if cls is None else f'<span class="{cls}">', esc(span.text), "</span>")


span_called, para_called, list_called, any_called, table_called = map(part, ("span", "para", "list", "any", "table"))
Contract(R + "_render_span", span_html, lambda B: ([renderer(B), section(B), B.opq("span", "span")], {}), called=span_called, props=["C17", "C18"])


def start(tokens, h):
    return {"tokens": list(tokens), "texts": h}


def span_step(tokens, h, st, span):
    r, s = ren(st["texts"]), of_tokens(st["tokens"])
    span_called(r, s, span)
    return {"tokens": s.tokens, "texts": texts(r)}


TXT = {"tokens": TOKENS, "texts": T.Opq("hist")}
SPANS = Fold("spans", TXT, start, span_step)


def para_html(self, s, p):
    s.emitln("<p>")
    take(self, s, fold(SPANS, p.spans, list(s.tokens), texts(self)))
    s.emitln("</p>")


def hist_of(I, r, name="_css_txtfmt_cache"):
    return r.attrs[name].attrs["hist"]


def at_state(F, seq, deep=False):
    """the fold over that sequence, from what is written and known when the loop is entered"""
    def rules(I, B, a):
        def make(b):
            hs = [hist_of(I, a[0])] + ([hist_of(I, a[0], "_SpexHtmlRenderer__css_tcell_cache")] if deep else [])
            return F.at(written(I, a[1]), *hs)
        return [(seq, make)]
    return rules


def both(*rs):
    return lambda I, B, a: [x for r in rs for x in r(I, B, a)]


Contract(R + "_render_paragraph", para_html, lambda B: ([renderer(B), section(B), B.opq("para", "p")], {}), called=para_called,
         fold_rules=at_state(SPANS, "para.spans"), props=["C17"])


# lists: nested lists are inside the item before them
def list_start(tokens, h):
    return {"tokens": list(tokens), "texts": h, "open_elem": False}


def list_step(tokens, h, st, x):
    r, s = ren(st["texts"]), of_tokens(st["tokens"])
    if isinstance(x, hp.ListElem):
        if st["open_elem"]:
            s.emitln("</li>")
        s.emitln("<li>")
        take(r, s, fold(SPANS, x.elems, list(s.tokens), texts(r)))
        return {"tokens": s.tokens, "texts": texts(r), "open_elem": True}
    if not st["open_elem"]:
        s.emitln("<li>")
    list_called(r, s, x)
    s.emitln("</li>")
    return {"tokens": s.tokens, "texts": texts(r), "open_elem": False}


ITEMS = Fold("items", {"tokens": TOKENS, "texts": T.Opq("hist"), "open_elem": T.bool}, list_start, list_step)


def list_html(self, s, lst):
    s.emitln("<", lst.props.tag, ' class="', lst.props.css_clsname, '">')
    st = fold(ITEMS, lst.elems, list(s.tokens), texts(self))
    take(self, s, st)
    if st["open_elem"]:
        s.emitln("</li>")
    s.emitln("</", lst.props.tag, ">")


Contract(R + "_render_list", list_html, lambda B: ([renderer(B), section(B), B.opq("list", "lst")], {}), called=list_called,
         fold_rules=both(at_state(ITEMS, "list.elems"), at_state(SPANS, "item.elems")), props=["C20", "C17"])


def any_html(self, s, o):
    if isinstance(o, hp.Span):
        span_called(self, s, o)
    elif isinstance(o, hp.Paragraph):
        para_called(self, s, o)
    elif isinstance(o, hp.List):
        list_called(self, s, o)
    else:
        table_called(self, s, o)


Contract(R + "_render_any", any_html, lambda B: ([renderer(B), section(B), B(ELEM, "o")], {}), called=any_called, props=["C17", "C20"])


# tables: each cell once, at its origin, with its spans
def deep_start(tokens, h, c):
    return {"tokens": list(tokens), "texts": h, "cells": c}


def elem_step(tokens, h, c, st, x):
    r, s = ren(st["texts"], st["cells"]), of_tokens(st["tokens"])
    any_called(r, s, x)
    return {"tokens": s.tokens, "texts": texts(r), "cells": cells(r)}


DEEP = {"tokens": TOKENS, "texts": T.Opq("hist"), "cells": T.Opq("hist")}
ELEMS = Fold("elems", DEEP, deep_start, elem_step)


def cell_step(tokens, h, c, row, st, nx):
    col, cell = nx
    if (cell.origin.x, cell.origin.y) != (col, row):
        return st
    r, s = ren(st["texts"], st["cells"]), of_tokens(st["tokens"])
    cls = None if cell.tc_pr is None else class_called(r._SpexHtmlRenderer__css_tcell_cache, cell.tc_pr)
    s.emit("<", cell.tag)
    if cell.span.x > 1:
        s.emit(' colspan="', str(cell.span.x), '"')
    if cell.span.y > 1:
        s.emit(' rowspan="', str(cell.span.y), '"')
    if cls is not None and cls != "":
        s.emit(' class="', cls, '"')
    s.emit(">")
    take(r, s, fold(ELEMS, cell.elems, list(s.tokens), texts(r), cells(r)))
    s.emitln("</", cell.tag, ">")
    return {"tokens": s.tokens, "texts": texts(r), "cells": cells(r)}


CELLS = Fold("cells", DEEP, lambda tokens, h, c, row: deep_start(tokens, h, c), cell_step)


def row_step(tokens, h, c, st, nx):
    r, s = ren(st["texts"], st["cells"]), of_tokens(st["tokens"])
    s.emitln("<tr>")
    take(r, s, fold(CELLS, list(enumerate(nx[1])), list(s.tokens), texts(r), cells(r), nx[0]))
    s.emitln("</tr>")
    return {"tokens": s.tokens, "texts": texts(r), "cells": cells(r)}


ROWS = Fold("rows", DEEP, deep_start, row_step)


def table_html(self, s, tbl):
    if tbl.id is None or tbl.id == "":
        s.emitln("<table>")
    else:
        s.emitln("<table id='", tbl.id, "'>")
    take(self, s, fold(ROWS, list(enumerate(tbl.rows)), list(s.tokens), texts(self), cells(self)))
    s.emitln("</table>")


def table_rules(I, B, a):
    rows = "table.rows"

    def cells_fold(b):
        row = SInt(b.atom.base.args[0].arg(1))  # row number k is the k-th element of the rows
        return CELLS.at(written(I, a[1]), hist_of(I, a[0]), hist_of(I, a[0], "_SpexHtmlRenderer__css_tcell_cache"), row)

    return both(at_state(ROWS, "enum[0]:" + rows, True), at_state(ELEMS, "cell.elems", True))(I, B, a) + [("enum[0]:row", cells_fold)]


Contract(R + "_render_table", table_html, lambda B: ([renderer(B), section(B), B.opq("table", "tbl")], {}), called=table_called,
         fold_rules=table_rules, props=["C16", "C17"])


# the documents as a whole ----------------------------------------------------------
from spex.htmlspec.docx.numbering import AbstractNum, AbstractNumLvl, NumberingDocument

NB = "spex.htmlspec.docx.numbering:"
MARKERS = {"decimal": "decimal", "lowerLetter": "lower-alpha", "lowerRoman": "lower-roman"}


@opaque(T.str)
def level_css(num, ilvl, fmt, text):
    """marker style of the lists of a level"""
    tag = "ol" if text.startswith("%") else "ul"
    marker = MARKERS.get(fmt, "decimal") if tag == "ol" else "disc" if ilvl % 2 == 0 else "circle"
    inner = " ".join([tag for _ in range(ilvl)])
    return f"{tag}.{tag}{num} {inner + ' ' if inner != '' else ''}{{ list-style-type: {marker}; }}"


def level(B, n="lvl", ilvl=None):
    return B.new(AbstractNumLvl, abstract_num_id=B.int(n + ".num"), ilvl=B.int(n + ".ilvl", 0) if ilvl is None else ilvl, num_fmt=B.str(n + ".fmt"), lvl_text=B.str(n + ".text"))


def lvl_tag(self):
    return "ol" if self.lvl_text.startswith("%") else "ul"


Contract(NB + "AbstractNumLvl.tag", lvl_tag, lambda B: ([level(B)], {}), props=["C20"])
Contract(NB + "AbstractNumLvl.css_clsname", lambda self: f"{lvl_tag(self)}{self.abstract_num_id}", lambda B: ([level(B)], {}), props=["C20"])
for k in range(9):  # OOXML has nine levels
    Contract(NB + "AbstractNumLvl.to_css", lambda self: level_css(self.abstract_num_id, self.ilvl, self.num_fmt, self.lvl_text), lambda B, k=k: ([level(B, ilvl=k)], {}),
             variant=f"level {k}", reveal=[level_css], props=["C20"])


def out_set(self, sec):
    """a section inserted into this one"""
    put(self, sec)


Out.add_section = out_set
A[("numlvl", "to_css")] = lambda I, x: I.ctx.mkstr(ufn("numlvl.css", ObjS, StrS)(x.t))
opq("numlvl", AbstractNumLvl, css_clsname=T.str, tag=T.str, ilvl=T.int)
opq("absnum", AbstractNum, abstract_num_id=T.int, ilvls=T.List(T.Opq("numlvl")))
A[("numdoc", "iter_styles")] = lambda I, x: models_build(I, T.List(T.Opq("absnum")), "numdoc.styles", x)
opq("numdoc", NumberingDocument)


def lines_start(tokens):
    return {"tokens": list(tokens)}


def lvl_line(tokens, st, lvl):
    of_tokens(st["tokens"]).emitln(lvl.to_css())
    return st


LEVELS = Fold("levels", {"tokens": TOKENS}, lines_start, lvl_line)


def style_lines(tokens, st, style):
    return {"tokens": list(fold(LEVELS, style.ilvls, list(st["tokens"]))["tokens"])}


STYLES = Fold("styles", {"tokens": TOKENS}, lines_start, style_lines)


def prelude(self):
    """fixed rules, then the marker style of every level of every numbering definition"""
    s = self._css_doc
    num = self._document._Document__numbering_xml
    if num is not None:
        s.emitln("/* list-formatting styles */")
        s.tokens = list(fold(STYLES, num.iter_styles(), list(s.tokens))["tokens"])


def with_documents(B, numbering=True):
    o = renderer(B)
    o.attrs["_css_doc"], o.attrs["_html_doc"] = section(B, "css"), section(B, "html")
    o.attrs["_html_head"], o.attrs["_html_body"] = B.opq("section", "head"), B.opq("section", "body")
    d = document(B)
    d.attrs["_Document__numbering_xml"] = B(T.opt(T.Opq("numdoc")), "numdoc")
    h = B.raw(__import__("spex.htmlspec.docx.header", fromlist=["Header"]).Header, _revision=B(T.opt(T.str), "revision"), _title=B.str("title"), _header=B.str("headertext"))
    d.attrs["_Document__header"] = h
    o.attrs["_document"] = d
    o.attrs["_fname"] = B.str("fname")
    o.attrs["_css_path"] = B.opq("path", "csspath")
    o.attrs["_parser"] = B.raw(hp.SpexParser, _document=d)
    return o


def no_rules(I, env, B):
    """the fixed rules of the prelude concern no property"""
    env.contracts = dict(env.contracts)
    env.contracts[CS + "css_block"] = Stand(lambda s, selectors, attrs: None)


def css_state(F, seq):
    return lambda I, B, a: [(seq, lambda b: F.at(written(I, a[0].attrs["_css_doc"])))]


Contract(R + "__write_css_prelude", prelude, lambda B: ([with_documents(B)], {}), setup=no_rules,
         called=lambda self: self._css_doc.tokens.append(prelude_token(self._document)),
         fold_rules=both(css_state(STYLES, "numdoc.styles"), css_state(LEVELS, "absnum.ilvls")), props=["C20"])


@opaque(T.str)
def prelude_token(doc):
    raise NotImplementedError


@opaque(T.str)
def rules_token(hist):
    raise NotImplementedError


def epilog(self):
    """the rules of all classes in use"""
    s = self._css_doc
    s.emitln("/* text-formatting styles */")
    s.tokens.append(rules_token(texts(self)))
    s.emitln("/* table cell formatting styles */")
    s.tokens.append(rules_token(cells(self)))


def abstract_rules(I, env, B):
    env.contracts = dict(env.contracts)
    env.contracts[CS + "CssCache.emit_rules"] = Stand(lambda self, s: s.tokens.append(rules_token(self.hist)))


Contract(R + "__write_css_epilog", epilog, lambda B: ([with_documents(B)], {}), setup=abstract_rules, props=["C18"])


@prim(lambda I, p: PList(I.ctx, [Blk(Atom("tables", (), shape=T.Opq("table")), z3.IntVal(0), Atom("tables", ()).length(I.ctx))]))
def tables_of(parser):
    raise NotImplementedError


def table_out(tokens, h, c, st, tbl):
    r, s = ren(st["texts"], st["cells"]), of_tokens(st["tokens"])
    table_called(r, s, tbl)
    return {"tokens": s.tokens, "texts": texts(r), "cells": cells(r)}


TABLES = Fold("tables", DEEP, deep_start, table_out)


def numbered_out(tokens, h, c, st, nt):
    return table_out(tokens, h, c, st, nt[1])


# the same recursion: a step uses the table of the pair alone, so both have one name
NUMBERED = Fold("tables", DEEP, deep_start, numbered_out)


def page(self, yield_progress):
    self._css_doc.tokens.append(prelude_token(self._document))
    s, h = self._html_doc, self._document._Document__header
    s.emitln("<!DOCTYPE html>")
    s.emitln('<html lang="en">')
    s.emitln("<head>")
    s.emit('<meta charset="utf-8" data-spec="', esc(h._title), '"')
    if h._revision is not None:
        s.emit(' data-revision="', esc(h._revision), '"')
    s.emitln("/>")
    s.emitln('<meta name="spexVersion" content="', VERSION, '" />')
    s.emitln("<title>", esc(self._fname), "</title>")
    s.add_section(self._html_head)
    s.emitln('<link rel="stylesheet" href="', esc(self._css_path.name), '"/>')
    s.emitln("</head>")
    s.emitln("<body>")
    s.add_section(self._html_body)
    ts = tables_of(self._parser)
    if yield_progress:
        take(self, s, fold(NUMBERED, list(enumerate(ts)), list(s.tokens), texts(self), cells(self)))
    else:
        take(self, s, fold(TABLES, ts, list(s.tokens), texts(self), cells(self)))
    s.emitln("</body>")
    s.emitln("</html>")
    epilog(self)
    if yield_progress:
        for n, t in enumerate(ts):
            yield n


VERSION = __import__("spex").__version__


def page_setup(I, env, B):
    abstract_rules(I, env, B)
    env.contracts["spex.htmlspec.parser:SpexParser.parse"] = Stand(tables_of)


def page_rules(I, B, a):
    def make(F):
        return lambda b: F.at(written(I, a[0].attrs["_html_doc"]), hist_of(I, a[0]), hist_of(I, a[0], "_SpexHtmlRenderer__css_tcell_cache"))
    return [("tables", make(TABLES)), ("enum[0]:tables", make(NUMBERED))]


for pg in (True, False):
    Contract(R + "generate", page, lambda B, pg=pg: ([with_documents(B), pg], {}), variant="progress" if pg else "quiet", setup=page_setup, fold_rules=page_rules, props=["C17", "C18"], use=False)


# parsing (C16, C17, C20) --------------------------------------------------------------
PA = "spex.htmlspec.parser:SpexParser."
A[("elem", "iterchildren")] = lambda I, e: models_build(I, T.List(T.Opq("elem")), "children", e)
A[("elem", ".text")] = lambda I, e: models_build(I, T.opt(T.str), "elem.text", e)


@prim(lambda I, e: I.call(I.getattr(I.resolve(e), "iterchildren"), [], {}))
def children(e):
    raise NotImplementedError


def runs_step(st, e):
    if e.tag == W + "r":
        st["runs"].append(e)
    elif e.tag in (W + "hyperlink", W + "fldSimple"):
        st["runs"].extend(xp(e, "./w:r"))
    return st


RUNS = Fold("runs", {"runs": T.List(T.Opq("elem"))}, lambda: {"runs": []}, runs_step)


@prim(lambda I, p: models_build(I, T.List(T.Opq("elem")), "runs", p))
def runs(p):
    """all runs of a paragraph, in order: its own, those of links and of fields"""
    raise NotImplementedError


SEEN = "_SpexParser__tbls_seen"


def parser(B):
    o = B.raw(hp.SpexParser, _document=document(B))
    o.attrs[SEEN] = B(T.Set(), "seen")
    return o


def yield_runs(self, p):
    yield from fold(RUNS, children(p))["runs"]


Contract(PA + "_select_runs", yield_runs, lambda B: ([parser(B), B.opq("elem", "p")], {}), called=lambda self, p: runs(p),
         folds=lambda I, B, a: [(I.call(children, [a[1]], {}), RUNS)], props=["C17"])


@opaque(T.opt(T.Opq("rpr")))
def run_rpr(e):
    raise NotImplementedError


for c in TASKS:
    if c.key == DC + "extract_r_rpr":
        c.called = lambda self, e: run_rpr(e)

SPAN = T.Obj(hp.Span, (("style", T.opt(T.Opq("rpr"))), ("text", T.str)))


def text_step(spans, r, st, t):
    if t.text is not None:
        st["spans"].append(hp.Span(style=run_rpr(r), text=t.text))
    return st


TEXTS = Fold("texts", {"spans": T.List(SPAN)}, lambda spans, r: {"spans": list(spans)}, text_step)


def run_step(st, r):
    return {"spans": list(fold(TEXTS, xp(r, "./w:t"), list(st["spans"]), r)["spans"])}


RUN_SPANS = Fold("run_spans", {"spans": T.List(SPAN)}, lambda: {"spans": []}, run_step)


@prim(lambda I, p: models_build(I, T.List(T.Opq("span")), "spans", p))
def spans_of(p):
    """the texts of a paragraph in order, each with the formatting of its run"""
    raise NotImplementedError


def text_rules(I, B, a):
    def make(b):
        ys = I.yielded
        I.norm_segs(ys.segs)
        return TEXTS.at(PList(I.ctx, list(ys.segs)), SOpq("elem", b.atom.args[0]))
    return [("xp:./w:t", make)]


def yield_spans(self, p):
    yield from fold(RUN_SPANS, runs(p))["spans"]


Contract(PA + "_parse_spans", yield_spans, lambda B: ([parser(B), B.opq("elem", "p")], {}), called=lambda self, p: spans_of(p),
         folds=lambda I, B, a: [(I.call(runs, [a[1]], {}), RUN_SPANS)], fold_rules=text_rules, props=["C17"])


def paragraph(self, stream):
    """the texts of the next paragraph, if it has any"""
    p = take_next(stream)
    ss = spans_of(p)
    if len(ss) == 0:
        return None
    return hp.Paragraph(spans=ss)


# numbering (C20) ----------------------------------------------------------------------
def whole(text):
    """a number as written, if it is one"""
    if text is None:
        return None
    try:
        return int(text)
    except ValueError:
        return None


def a_level(num, st, e):
    n, fmt, text = whole(first(e, "./@w:ilvl")), first(e, "./w:numFmt/@w:val"), first(e, "./w:lvlText/@w:val")
    if n is None or fmt is None or text is None:
        return ("STOP", st)
    st["ilvls"].append(AbstractNumLvl(abstract_num_id=num, ilvl=n, num_fmt=fmt, lvl_text=text))
    return st


LVLS = Fold("lvls", {"ilvls": T.List(T.Opq("numlvl"))}, lambda num: {"ilvls": []}, a_level)


def a_definition(st, e):
    num = whole(first(e, "./@w:abstractNumId"))
    if num is None:
        return ("STOP", st)
    ls = fold(LVLS, xp(e, "./w:lvl"), num)
    if ls["stopped"]:
        return ("STOP", st)
    st["abs_nums"][num] = AbstractNum(abstract_num_id=num, ilvls=list(ls["ilvls"]))
    return st


DEFS = Fold("defs", {"abs_nums": T.Map(T.Opq("absnum"), T.int)}, lambda: {"abs_nums": {}}, a_definition)


def a_use(st, e):
    n, a = whole(first(e, "@w:numId")), whole(first(e, "./w:abstractNumId/@w:val"))
    if n is None or a is None:
        return ("STOP", st)
    st["num_to_abs_num"][n] = a
    return st


USES = Fold("uses", {"num_to_abs_num": T.Map(T.int, T.int)}, lambda: {"num_to_abs_num": {}}, a_use)


def numbering(self):
    """all definitions with all their levels in order, and which numbering uses which"""
    d = fold(DEFS, xp(self._elem, "./w:abstractNum"))
    if d["stopped"]:
        raise Exception("attribute missing or not a number")
    u = fold(USES, xp(self._elem, "./w:num"))
    self._abstract_nums = d["abs_nums"]
    if u["stopped"]:
        raise Exception("attribute missing or not a number")
    self._num_to_abs_num = u["num_to_abs_num"]


def num_rules(I, B, a):
    e = lambda b: SOpq("elem", b.atom.args[0])
    return [("xp:./w:abstractNum", lambda b: DEFS), ("xp:./w:num", lambda b: USES),
            ("xp:./w:lvl", lambda b: LVLS.at(I.call(whole, [I.call(first, [e(b), "./@w:abstractNumId"], {})], {})))]


Contract(NB + "NumberingDocument.__parse_absnum", numbering, lambda B: ([B.raw(NumberingDocument, _elem=B.opq("elem", "numxml"))], {}), fold_rules=num_rules, frame_on_raise=False, props=["C20"])


def numdoc(B):
    return B.raw(NumberingDocument, _abstract_nums=PDict(B.ctx, base=MapAtom("absnums", (B.opq("map", "absnums").t,), T.Opq("absnum"), T.int)),
                 _num_to_abs_num=PDict(B.ctx, base=MapAtom("uses", (B.opq("map", "uses").t,), T.int, T.int)))


def style_of(self, num_id):
    return self._abstract_nums[self._num_to_abs_num[int(num_id)]]


def if_level(k, st, lvl):
    if lvl.ilvl == int(k):
        return ("STOP", {"found": lvl})
    return st


LEVEL_OF = Fold("level_of", {"found": T.opt(T.Opq("numlvl"))}, lambda k: {"found": None}, if_level)


def level_of(self, ilvl):
    """the first level with this number, at whatever position"""
    int(ilvl)
    st = fold(LEVEL_OF, self.ilvls, ilvl)
    if not st["stopped"]:
        raise IndexError("level")
    return st["found"]


for t in (T.str, T.int):
    Contract(NB + "NumberingDocument.has_num_id", lambda self, num_id: int(num_id) in self._num_to_abs_num, lambda B, t=t: ([numdoc(B), B(t, "num")], {}), variant=repr(t), props=["C20"])
    Contract(NB + "NumberingDocument.get_style", style_of, lambda B, t=t: ([numdoc(B), B(t, "num")], {}), variant=repr(t), props=["C20"])
    Contract(NB + "AbstractNum.get_ilvl", level_of, lambda B, t=t: ([B.raw(AbstractNum, abstract_num_id=B.int("num"), ilvls=B.seq(T.Opq("numlvl"), "lvls")), B(t, "ilvl")], {}),
             folds=lambda I, B, a: [(I.getattr(a[0], "ilvls"), LEVEL_OF.at(a[1]))], variant=repr(t), props=["C20"])


# streams (C20): what is left of a sequence ------------------------------------------------
SM = "spex.htmlspec.stream:Stream."
from pyvc.interp import IterObj
from spex.htmlspec.stream import Stream


def left(B, n="stream"):
    """a stream as its users see it"""
    return B.raw(Stream, rest=B.seq(T.Opq("elem"), n + ".rest"))


def real_stream(B, more):
    """the same as the class keeps it: the next element and an iterator over the later ones"""
    end = B.raw(object)
    seq = B.seq(T.Opq("elem"), "stream.rest").segs[0]
    o = B.raw(Stream, _Stream__end_of_iter=end)
    n = seq.atom.length(B.ctx)
    B.ctx.assume(n > 0 if more else n == 0)
    o.attrs["_Stream__current"] = seq.atom.at(B.ctx, z3.IntVal(0)) if more else end
    o.attrs["_Stream__iter"] = IterObj(B.ctx, [Blk(seq.atom, z3.IntVal(1), n)] if more else [])
    return o


def stream_view(I, x):
    if not isinstance(x, PObj) or x.cls is not Stream:
        return x
    a = x.attrs
    now = [] if a["_Stream__current"] is a["_Stream__end_of_iter"] else [Unit(a["_Stream__current"])]
    it = I.resolve(a["_Stream__iter"])
    if not isinstance(it, IterObj) or not now and I.norm_segs(it.segs):
        raise Unsupported("iterator of a stream")
    return PObj(I.ctx, Stream, {"rest": PList(I.ctx, now + list(it.segs))})


def peeked(self):
    if len(self.rest) == 0:
        raise StopIteration()
    return self.rest[0]


def consumed(self):
    r = peeked(self)
    self.rest = self.rest[1:]
    return r


def streaming(self, iterable):
    self.rest = list(iterable)


for more in (True, False):
    for n, f in (("end", lambda self: len(self.rest) == 0), ("peek", peeked), ("consume", consumed)):
        Contract(SM + n, f, lambda B, more=more: ([real_stream(B, more)], {}), spec_args=lambda B: ([left(B)], {}), arg_view=stream_view, variant="more" if more else "ended", props=["C20"])
Contract(SM + "__init__", streaming, lambda B: ([B.raw(Stream), IterObj(B.ctx, B.seq(T.Opq("elem"), "elems").segs)], {}), spec_args=lambda B: ([B.raw(Stream), B.seq(T.Opq("elem"), "elems")], {}),
         arg_view=lambda I, x: stream_view(I, x) if isinstance(x, PObj) else B_elems(I), props=["C20"])


def B_elems(I):
    a = Atom("elems", (), shape=T.Opq("elem"))
    return PList(I.ctx, [Blk(a, z3.IntVal(0), a.length(I.ctx))])


def take_next(stream):
    return consumed(stream)


Contract(PA + "_parse_paragraph", paragraph, lambda B: ([parser(B), left(B)], {}), props=["C17", "C20"])


# contents of cells: the grammar of paragraphs, lists and tables (C20) --------------------------
from .base import Loop, loop

libmodels.OPQ_CLASS["unit"] = None


def numdoc_style(I, x, n):
    n = I.resolve(n)
    if not I.ctx.branch(ufn("numdoc.defines", ObjS, IntS, BoolS)(x.t, I.int_term(n))):
        raise I.exc(KeyError, n)
    return SOpq("absnum", ufn("numdoc.style", ObjS, IntS, ObjS)(x.t, I.int_term(n)))


def numdoc_has(I, x, n):
    n = I.resolve(n)
    if isinstance(n, (SStr, str)):
        n = models.c_int(I, n)
    return SBool(ufn("numdoc.has", ObjS, IntS, BoolS)(x.t, I.int_term(n)))


def absnum_level(I, x, k):
    k = I.resolve(k)
    if not I.ctx.branch(ufn("absnum.has", ObjS, IntS, BoolS)(x.t, I.int_term(k))):
        raise I.exc(IndexError, k)
    return SOpq("numlvl", ufn("absnum.level", ObjS, IntS, ObjS)(x.t, I.int_term(k)))


A[("numdoc", "get_style")] = numdoc_style
A[("numdoc", "has_num_id")] = numdoc_has
A[("absnum", "get_ilvl")] = absnum_level


def numbering_of(self):
    return self._document._Document__numbering_xml


def in_list(self, e):
    """a paragraph with a numbering which the document defines"""
    n = first(e, "./w:pPr/w:numPr/w:numId/@w:val")
    if n is None or numbering_of(self) is None:
        return False
    return numbering_of(self).has_num_id(n)


def with_numbering(B):
    o = parser(B)
    o.attrs["_document"].attrs["_Document__numbering_xml"] = B(T.opt(T.Opq("numdoc")), "numdoc")
    o.attrs["__ident__"] = (B.opq("parser", "parser"),)  # what it says does not depend on what it has seen
    return o


Contract(PA + "__p_is_list_paragraph", in_list, lambda B: ([with_numbering(B), B.opq("elem", "p")], {}), props=["C20"])


# what users see of a list or a table which starts where the stream stands
@opaque(T.bool)
def list_fails(rest):
    raise NotImplementedError


@opaque(T.Opq("list"))
def list_at(rest):
    raise NotImplementedError


@opaque(T.List(T.Opq("elem")))
def after_list(rest):
    raise NotImplementedError


def a_list_called(self, stream):
    if list_fails(list(stream.rest)):
        raise Exception("malformed list")
    r = list_at(list(stream.rest))
    stream.rest = after_list(list(stream.rest))
    return r


@opaque(T.bool)
def table_fails(seen, e):
    raise NotImplementedError


@opaque(T.opt(T.Opq("table")))
def table_of(seen, e):
    raise NotImplementedError


@opaque(T.Set())
def seen_after(seen, e):
    raise NotImplementedError


def a_table_called(self, stream):
    e = consumed(stream)
    if table_fails(getattr(self, SEEN), e):
        raise Exception("malformed table")
    r = table_of(getattr(self, SEEN), e)
    setattr(self, SEEN, seen_after(getattr(self, SEEN), e))
    return r


ELS = T.List(T.Opq("elem"))
for tag, kinds in {"unit": ("para", "list", "table", "Paragraph", "ListElem", "List", "Table"), "item": ("list", "List", "ListElem"), "numlvl": ("AbstractNumLvl",), "absnum": ("AbstractNum",)}.items():
    libmodels.OPQ_BUILT |= {(tag, k) for k in kinds}


def any_step(self, rest, seen, st):
    """one paragraph with text, one list, or one table not seen before; anything else is passed over"""
    s = Rest()
    s.rest = list(st["rest"])
    setattr(s, SEEN, st["seen"])
    e = s.rest[0]
    if e.tag == W + "tbl":
        if table_fails(getattr(s, SEEN), e):
            return ("STOP", st)
        t = a_table_called(s, s)
        if t is not None:
            st["out"].append(t)
    elif e.tag == W + "p":
        n = first(e, "./w:pPr/w:numPr/w:numId/@w:val")
        if n is not None and numbering_of(self) is not None and whole(n) is None:
            return ("STOP", st)
        if in_list(self, e):
            if list_fails(list(s.rest)):
                return ("STOP", st)
            st["out"].append(a_list_called(self, s))
        else:
            p = paragraph(self, s)
            if p is not None:
                st["out"].append(p)
    else:
        consumed(s)
    return {"rest": s.rest, "seen": getattr(s, SEEN), "out": st["out"]}


class Rest:
    """stands for a stream (and the tables seen so far) in a step"""


ANY = Loop("any", {"rest": ELS, "seen": T.Set(), "out": T.List(T.Opq("unit"))}, lambda self, rest, seen: {"rest": list(rest), "seen": seen, "out": []},
           lambda self, rest, seen, st: len(st["rest"]) > 0, any_step)


def contents(self, stream):
    st = loop(ANY, self, list(stream.rest), getattr(self, SEEN))
    yield from st["out"]
    if st["stopped"]:
        raise Exception("malformed")
    stream.rest = list(st["rest"])
    setattr(self, SEEN, st["seen"])


def set_copy(I, s):
    return I.call(set, [s], {})


def parser_loop(I, B, a):
    return ANY.at(a[0], PList(I.ctx, list(a[1].attrs["rest"].segs)), set_copy(I, a[0].attrs[SEEN]))


def grammar(I, env, B):
    env.contracts = dict(env.contracts)
    env.contracts[PA + "_parse_list"] = Stand(a_list_called)
    env.contracts[PA + "_parse_table"] = Stand(a_table_called)


Contract(PA + "_parse_any", contents, lambda B: ([with_numbering(B), left(B)], {}), setup=grammar, loops=[parser_loop], frame_on_raise=False, props=["C20", "C17"])


def number_at(e, q):
    return whole(first(e, q))


NUM_ID, LEVEL = "./w:pPr/w:numPr/w:numId/@w:val", "./w:pPr/w:numPr/w:ilvl/@w:val"


@opaque(T.bool)
def items_fail(rest, num, level):
    raise NotImplementedError


@opaque(T.List(T.Opq("item")))
def items_at(rest, num, level):
    raise NotImplementedError


@opaque(ELS)
def after_items(rest, num, level):
    raise NotImplementedError


def items_called(self, stream, num, level):
    if items_fail(list(stream.rest), num, level):
        raise Exception("malformed list")
    r = items_at(list(stream.rest), num, level)
    stream.rest = after_items(list(stream.rest), num, level)
    return r


def a_list(self, stream):
    """the level's formatting and all items which belong to it"""
    e = peeked(stream)
    if e.tag != W + "p":
        raise AssertionError("not a paragraph")
    n, k = number_at(e, NUM_ID), number_at(e, LEVEL)
    if n is None or k is None or numbering_of(self) is None:
        raise Exception("attribute missing or not a number")
    s = numbering_of(self).get_style(n)
    return hp.List(props=s.get_ilvl(k), elems=list(items_called(self, stream, s.abstract_num_id, k)))


def items(I, env, B):
    grammar(I, env, B)
    env.contracts[PA + "_parse_list_elems"] = Stand(items_called)


Contract(PA + "_parse_list", a_list, lambda B: ([with_numbering(B), left(B)], {}), setup=items, frame_on_raise=False, props=["C20"])


def style_known(doc, n):
    try:
        doc.get_style(n)
        return True
    except KeyError:
        return False


def belongs(self, num, level, st):
    """the list goes on with a paragraph of the same definition at this or a deeper level
    (what is malformed is not passed over)"""
    if len(st["rest"]) == 0:
        return False
    e = st["rest"][0]
    if e.tag != W + "p" or first(e, NUM_ID) is None:
        return False
    n, doc = number_at(e, NUM_ID), numbering_of(self)
    if n is None:
        return True
    if not doc.has_num_id(n):
        return False
    if not style_known(doc, n):
        return True
    if doc.get_style(n).abstract_num_id != num:
        return False
    k = number_at(e, LEVEL)
    return k is None or k >= level


def item_step(self, rest, num, level, st):
    s = Rest()
    s.rest = list(st["rest"])
    e = s.rest[0]
    n, k = number_at(e, NUM_ID), number_at(e, LEVEL)
    if n is None or k is None or not style_known(numbering_of(self), n):
        return ("STOP", st)
    if k > level:
        if list_fails(list(s.rest)):
            return ("STOP", st)
        st["out"].append(a_list_called(self, s))
    else:
        st["out"].append(hp.ListElem(elems=list(spans_of(consumed(s)))))
    return {"rest": s.rest, "out": st["out"]}


LIST = Loop("list", {"rest": ELS, "out": T.List(T.Opq("item"))}, lambda self, rest, num, level: {"rest": list(rest), "out": []},
            lambda self, rest, num, level, st: belongs(self, num, level, st), item_step)


def list_items(self, stream, num, level):
    if numbering_of(self) is None:
        raise AssertionError("no numbering")
    st = loop(LIST, self, list(stream.rest), num, level)
    yield from st["out"]
    if st["stopped"]:
        raise Exception("malformed")
    stream.rest = list(st["rest"])


Contract(PA + "_parse_list_elems", list_items, lambda B: ([with_numbering(B), left(B), B.int("num"), B.int("level")], {}), setup=grammar,
         loops=[lambda I, B, a: LIST.at(a[0], PList(I.ctx, list(a[1].attrs["rest"].segs)), a[2], a[3])], frame_on_raise=False, props=["C20"])


# all tables of the document (C16, C17)
def table_step(self, rest, seen, st):
    s = Rest()
    s.rest = list(st["rest"])
    setattr(s, SEEN, st["seen"])
    if table_fails(getattr(s, SEEN), s.rest[0]):
        return ("STOP", st)
    t = a_table_called(s, s)
    if t is not None:
        st["out"].append(t)
    return {"rest": s.rest, "seen": getattr(s, SEEN), "out": st["out"]}


EVERY = Loop("every", {"rest": ELS, "seen": T.Set(), "out": T.List(T.Opq("table"))}, lambda self, rest, seen: {"rest": list(rest), "seen": seen, "out": []},
             lambda self, rest, seen, st: len(st["rest"]) > 0, table_step)


def all_tables(self):
    """the tables of the document in order, each once"""
    st = loop(EVERY, self, xp(self._document._elem, ".//w:tbl"), set())
    yield from st["out"]
    if st["stopped"]:
        raise Exception("malformed")
    setattr(self, SEEN, st["seen"])


Contract(PA + "parse", all_tables, lambda B: ([with_numbering(B)], {}), setup=grammar,
         loops=[lambda I, B, a: EVERY.at(a[0], I.call(xp, [a[0].attrs["_document"].attrs["_elem"], ".//w:tbl"], {}), PSet(I.ctx))], frame_on_raise=False, props=["C16", "C17"])


# one table
@opaque(T.bool)
def contents_fail(seen, elems):
    raise NotImplementedError


@opaque(T.List(T.Opq("unit")))
def contents_of(seen, elems):
    raise NotImplementedError


@opaque(T.Set())
def seen_after_contents(seen, elems):
    raise NotImplementedError


def contents_called(self, stream):
    e, s = list(stream.rest), getattr(self, SEEN)
    if contents_fail(s, e):
        raise Exception("malformed")
    yield from contents_of(s, e)
    stream.rest = []
    setattr(self, SEEN, seen_after_contents(s, e))


@opaque(T.bool)
def grid_fails(e):
    raise NotImplementedError


@prim(lambda I, e: models_build(I, T.List(T.List(T.Opq("gridcell"))), "grid", e))
def grid_of(e):
    """rows of grid positions, each with the cell which covers it"""
    raise NotImplementedError


def grid_called(self):
    if grid_fails(self._elem):
        raise Exception("malformed")
    return grid_of(self._elem)


# the grid of a table (C16): cells are told apart by the order of their creation; a
# cell which is continued in a later row is marked with that row
from spex.htmlspec.docx.tablewrap import GridElement, TableWrap

GE = T.Opq("gridelem")
GE_ATTRS = ("cell", "top", "left", "right", "number")
GE_SORTS = (ObjS, IntS, IntS, IntS, IntS)
MARKS = T.List(T.Tuple((T.int, T.int)))


def _ge(I, *vals):
    ts = [x.t if isinstance(x, SOpq) else I.int_term(x) for x in map(I.resolve, vals)]
    return SOpq("gridelem", ufn("gridelem", *GE_SORTS, ObjS)(*ts))


class Element:
    """a cell of the grid"""

    def __init__(self, cell, top, left, right, number):
        self.cell, self.top, self.left, self.right, self.number = cell, top, left, right, number


@prim(_ge)
def grid_element(cell, top, left, right, number):
    return Element(cell, top, left, right, number)


def _ge_attr(k):
    def get(I, g):
        if z3.is_app(g.t) and g.t.decl().name() == "gridelem":
            t = g.t.arg(k)
        else:
            t = ufn("gridelem." + GE_ATTRS[k], ObjS, GE_SORTS[k])(g.t)
        return SOpq("elem", t) if k == 0 else SInt(z3.simplify(t))
    return get


for k, n in enumerate(GE_ATTRS):
    A[("gridelem", "." + n)] = _ge_attr(k)
for n in ("colspan",):
    A[("gridelem", "." + n)] = lambda I, g, n=n: I.call(getattr(GridElement, n).fget, [g], {})
libmodels.OPQ_TRUTH["gridelem"] = lambda I, x: True
A[("gridelem", "=bottom")] = lambda I, g, v: models.list_append(I, I.grid_heap.attrs["marks"], (I.getattr(g, "number"), I.resolve(v)))


def _new_gridelem(I, args, kw):
    names = [f.name for f in dataclasses.fields(GridElement)]
    kw = {**dict(zip(names, args)), **kw}
    if set(kw) != set(names) or set(names) != {"cell", "top", "bottom", "left", "right"}:
        raise Unsupported("cells of the grid with other attributes")
    h = I.grid_heap
    g = _ge(I, kw["cell"], kw["top"], kw["left"], kw["right"], I.getattr(h, "number"))
    I.setattr(h, "number", I.binop(ast.Add(), I.getattr(h, "number"), 1))
    I.setattr(g, "bottom", kw["bottom"])
    return g


class Heap:
    """the grid cells made so far"""


def table_wrap(B):
    o = B.raw(TableWrap, _elem=B.opq("elem", "tbl"))
    o.attrs["heap"] = B.I.grid_heap = B.raw(Heap, number=0, marks=PList(B.ctx))
    return o


def columns(tc):
    v = first(tc, "./w:tcPr/w:gridSpan/@w:val")
    return 1 if v is None else int(v)


def continued(tc):
    """does the cell continue the one above?"""
    m = first(tc, "./w:tcPr/w:vMerge")
    if m is None:
        return False
    v = first(m, "@w:val")
    if v is None or v == "" or v == "continue":
        return True
    if v != "restart":
        raise ValueError("merge")
    return False


def tc_step(above, r, st, tc):
    try:
        w, c = columns(tc), st["col"]
        if continued(tc):
            g, n = above[-1][c], st["number"]
            if w != g.right - g.left + 1:
                raise ValueError("cells of different width")
        else:
            n = st["number"] + 1
            g = grid_element(tc, r, c, c + w - 1, st["number"])
    except Exception:
        return ("STOP", st)
    return {"row": st["row"] + [g for _ in range(w)], "col": c + w, "number": n, "marks": st["marks"] + [(g.number, r)]}


ROW_GRID = Fold("row_grid", {"row": T.List(GE), "col": T.int, "number": T.int, "marks": MARKS}, lambda above, r, number, marks: {"row": [], "col": 0, "number": number, "marks": list(marks)},
                lambda above, r, number, marks, st, tc: tc_step(above, r, st, tc))


def tr_step(st, item):
    r, tr = item
    x = fold(ROW_GRID, xp(tr, "./w:tc"), st["rows"], r, st["number"], st["marks"])
    if x["stopped"]:
        return ("STOP", st)
    return {"rows": st["rows"] + [x["row"]], "number": x["number"], "marks": x["marks"]}


TABLE_GRID = Fold("table_grid", {"rows": T.List(T.List(GE)), "number": T.int, "marks": MARKS}, lambda: {"rows": [], "number": 0, "marks": []}, tr_step)


def the_grid(self):
    """a row per w:tr with, for each column, the cell which covers it; the last mark of a cell is its last row"""
    st = fold(TABLE_GRID, list(enumerate(xp(self._elem, "./w:tr"))))
    if st["stopped"]:
        raise Exception("malformed")
    self.heap.number, self.heap.marks = st["number"], st["marks"]
    return st["rows"]


def wrap_rules(I, B, a):
    def trs(b):
        I.outer = (TABLE_GRID, b)
        return TABLE_GRID

    def tcs(b):
        t = b.atom.args[0]
        st, _ = I.fold_state(*I.outer, t.arg(t.num_args() - 1))
        return ROW_GRID.at(I.state_get(st, "rows"), SInt(t.arg(t.num_args() - 1)), I.state_get(st, "number"), I.state_get(st, "marks"))
    return [("enum[0]:xp:./w:tr", trs), ("xp:./w:tc", tcs)]


def with_heap(I, env, B):
    env.ctors = dict(env.ctors)
    env.ctors[f"{GridElement.__module__}.{GridElement.__qualname__}"] = _new_gridelem


A[("elem", "findall")] = lambda I, e, q, namespaces=None: xmlspec.sym_xp(I, e, q)
Contract("spex.htmlspec.docx.tablewrap:TableWrap.grid", the_grid, lambda B: ([table_wrap(B)], {}), called=grid_called, setup=with_heap, fold_rules=wrap_rules, frame_on_raise=False, props=["C16"])


TC = T.Obj(hp.TableCell, (("tag", T.str), ("elems", T.List(T.Opq("unit"))), ("span", POINT), ("origin", POINT), ("tc_pr", T.opt(T.Obj(hp.TcPr, (("shd_fill", T.str),))))))
opq("gridcell", None, cell=T.Opq("elem"), colspan=T.int, rowspan=T.int, left=T.int, top=T.int)


def shading(e):
    """the colour of a cell, if it has one other than white"""
    c = first(e, "./w:tcPr/w:shd/@w:fill")
    if c is None or len(c) != 6 or c.lower() == "ffffff":
        return None
    return c


def a_cell(self, g):
    c = shading(g.cell)
    grey = c is not None and c[0:2] == c[2:4] and c[2:4] == c[4:6]
    s = Rest()
    s.rest = children(g.cell)
    return hp.TableCell(tag="th" if grey else "td", elems=list(contents_called(self, s)), span=hp.Point(g.colspan, g.rowspan), origin=hp.Point(g.left, g.top),
                        tc_pr=None if c is None else hp.TcPr(shd_fill=c))


def grid_cell_step(r, cache, seen, st, item):
    c, g = item
    p = Rest()
    setattr(p, SEEN, st["seen"])
    if contents_fail(st["seen"], children(g.cell)):
        return ("STOP", st)
    x = a_cell(p, g)
    st["cache"][hp.Point(c, r)] = x
    return {"cells": st["cells"] + [x], "cache": st["cache"], "seen": getattr(p, SEEN)}


def before(I, env, i, k):
    x, y, r = (I.int_term(v) for v in (k.attrs["x"], k.attrs["y"], env[0]))
    return z3.Or(y < r, z3.And(y == r, x < i))


def above(I, env, i, k):
    return I.int_term(k.attrs["y"]) < i


CACHED = T.Map(TC, POINT)
ROW_CELLS = Fold("row_cells", {"cells": T.List(TC), "cache": CACHED, "seen": T.Set()}, lambda r, cache, seen: {"cells": [], "cache": dict(cache), "seen": seen}, grid_cell_step, keys={"cache": before})


def grid_row_step(st, item):
    r, row = item
    x = fold(ROW_CELLS, list(enumerate(row)), r, st["cache"], st["seen"])
    if x["stopped"]:
        return ("STOP", st)
    return {"rows": st["rows"] + [x["cells"]], "cache": x["cache"], "seen": x["seen"]}


GRID_ROWS = Fold("grid_rows", {"rows": T.List(T.List(TC)), "cache": CACHED, "seen": T.Set()}, lambda seen: {"rows": [], "cache": {}, "seen": seen}, lambda seen, st, item: grid_row_step(st, item), keys={"cache": above})


@opaque(T.opt(T.str))
def table_id(rows):
    raise NotImplementedError


def one_table(self, stream):
    """nothing for a table seen before; otherwise the cells of its grid in order"""
    e = consumed(stream)
    if e.tag != W + "tbl":
        raise AssertionError("not a table")
    if e in getattr(self, SEEN):
        return None
    getattr(self, SEEN).add(e)
    if grid_fails(e):
        raise Exception("malformed")
    x = fold(GRID_ROWS, list(enumerate(grid_of(e))), getattr(self, SEEN))
    if x["stopped"]:
        raise Exception("malformed")
    setattr(self, SEEN, x["seen"])
    return hp.Table(rows=x["rows"], id=table_id(x["rows"]))


def table_parts(I, env, B):
    env.contracts = dict(env.contracts)
    env.contracts[PA + "_parse_any"] = Stand(contents_called)
    env.contracts["spex.htmlspec.docx.tablewrap:TableWrap.grid"] = Stand(grid_called)
    env.contracts["spex.htmlspec.parser:find_id"] = Stand(lambda rows: table_id(rows))


def grid_rules(I, B, a):
    def rows(b):
        I.outer = (GRID_ROWS.at(set_copy(I, a[0].attrs[SEEN])), b)
        return I.outer[0]

    def cells(b):
        r = b.atom.base.args[0].arg(1)
        st, _ = I.fold_state(*I.outer, r)
        return ROW_CELLS.at(SInt(r), I.state_get(st, "cache"), I.state_get(st, "seen"))
    return [("enum[0]:grid", rows), ("enum[0]:items:T.Opq(tag='gridcell')", cells)]


Contract(PA + "_parse_table", one_table, lambda B: ([with_numbering(B), left(B)], {}), setup=table_parts, fold_rules=grid_rules, frame_on_raise=False, props=["C16", "C17", "C20"])


# the id of a table
import re

TABLE_ID = re.compile(r"^Figure (?P<id>\d+):.*")
PARA = T.Obj(hp.Paragraph, (("spans", T.List(T.Opq("span"))),))
LISTED = T.Obj(hp.List, (("props", T.Opq("numlvl")), ("elems", T.List(T.Opq("item")))))
ID_CELL = T.Obj(hp.TableCell, (("tag", T.str), ("elems", T.List(T.Union((PARA, LISTED))))))


def id_of(rows):
    """a table which starts with `Figure <id>:` in an ordinary cell has that id"""
    if len(rows) == 0 or len(rows[0]) == 0:
        return None
    c = rows[0][0]
    if c.tag != "td" or len(c.elems) == 0 or not isinstance(c.elems[0], hp.Paragraph):
        return None
    m = TABLE_ID.match("".join(s.text for s in c.elems[0].spans))
    return m.group("id") if m else None


Contract("spex.htmlspec.parser:find_id", id_of, lambda B: ([B(T.List(T.List(ID_CELL)), "rows")], {}), called=lambda rows: table_id(rows), props=["C16", "C17"])


# the parts of the archive (C17, C19, C20, C21) ----------------------------------------
from pathlib import Path

from .contracts_out import safe_parser


@prim(lambda I, path, name: world._parse(I, world.zip_open(I, world._zip(I, path), name), I.call(safe_parser, [], {})))
def part(path, name):
    """the document in a part of the archive, read without resolving entities"""
    raise NotImplementedError


Contract("spex.htmlspec.docx.docxutils:docx_extract_contents", lambda docx_path, file="word/document.xml": part(docx_path, file), lambda B: ([B.opq("path", "docx"), B.str("file")], {}), props=["C17", "C21"])
REVISION = re.compile(r".*[Rr]evision\s+(?P<rev>\S+).*")


def header(self, path):
    """title and revision: from the text of the header"""
    self._elem = part(path, "word/header1.xml")
    self._path = path
    t = "".join(e.text for e in xp(self._elem, ".//w:t") if e.text is not None)
    m = REVISION.match(t)
    self._header, self._revision, self._title = t, m.group("rev") if m else None, t.split(",")[0].strip()


Contract("spex.htmlspec.docx.header:Header.__init__", header, lambda B: ([B.raw(hd.Header), B.opq("path", "docx")], {}), frame_on_raise=False, use=False, props=["C17"])


def numdoc_init(self, path):
    self._elem, self._path = part(path, "word/numbering.xml"), path
    numbering(self)


Contract(NB + "NumberingDocument.__init__", numdoc_init, lambda B: ([B.raw(NumberingDocument), B.opq("path", "docx")], {}), frame_on_raise=False, use=False, props=["C20"])


def resolver_init(self, doc, kind):
    self._style_doc, self._style_type, self._style_aliases = doc, kind, names_of(doc, kind)


for k in ("paragraph", "character"):
    Contract(ST + "StyleResolver.__init__", resolver_init, lambda B, k=k: ([B.raw(styles_mod.StyleResolver), B.opq("elem", "doc"), k], {}), variant=k, frame_on_raise=False, use=False, props=["C19"])


@prim(lambda I, cls: PObj(I.ctx, cls, {}))
def new(cls):
    return cls.__new__(cls)


def styles_init(self, path):
    self._elem, self._path = part(path, "word/styles.xml"), path
    self._pstyles, self._cstyles = new(styles_mod.StyleResolver), new(styles_mod.StyleResolver)
    resolver_init(self._pstyles, self._elem, "paragraph")
    resolver_init(self._cstyles, self._elem, "character")


Contract(ST + "StylesDocument.__init__", styles_init, lambda B: ([B.raw(styles_mod.StylesDocument), B.opq("path", "docx")], {}), frame_on_raise=False, use=False, props=["C19"])


def document_init(self, path):
    """all parts of the document; only that of the numberings may be missing"""
    if not path.exists():
        raise AssertionError("no such document")
    self._elem = part(path, "word/document.xml")
    self._Document__path = path
    n, h, s = new(NumberingDocument), new(hd.Header), new(styles_mod.StylesDocument)
    try:
        numdoc_init(n, path)
    except KeyError:
        n = None
    header(h, path)
    styles_init(s, path)
    self._Document__numbering_xml, self._Document__header, self._Document__styles = n, h, s


from spex.htmlspec.docx.document import Document

Contract(DC + "__init__", document_init, lambda B: ([B.raw(Document), B.opq("path", "docx")], {}), frame_on_raise=False, use=False, props=["C17", "C19", "C20"])
