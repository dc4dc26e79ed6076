"""Contracts of the server (C21-C23).

The framework is modelled: a response with a stream of events stands for the
sequence of what is sent while it is consumed, in one trace with what happens to
files; the table of the cache is an arbitrary map from addresses to files."""
import hashlib
import json
import shutil
import tempfile

import quart
import z3

from pyvc import libmodels, models
from pyvc.core import Atom, Blk, BoolS, IntS, MapAtom, ObjS, PDict, PList, PObj, SBool, SInt, SOpq, SStr, StrS, T, Unit, Unsupported, as_int_term, ufn
from pyvc.interp import BLACKHOLE, Drain, GenObj, IterObj, PyExc, Sink
from pyvc.mark import opaque, prim
from pyvc.verify import Contract
from spex.xml import XmlUtils
from spexsrv.application import app as srv
from . import base, world, xmlspec
from .base import Fold, fold
from .contracts_doc import Stand
from .contracts_out import html_target, safe_parser, target
from .xmlspec import xp

A = world.A
SRV = "spexsrv.application.app:"


# the address of a document (C22) -----------------------------------------------
def _open_bytes(I, path, mode="r", *a, **k):
    if mode in ("rb", "br"):
        f = Bytes("bfile", world.as_path(I, path).t)
        f.rest = None
        return f
    return world._open(I, path, mode, *a, **k)


class Bytes(SOpq):
    """a file which is read"""

    __slots__ = ("rest",)


class Piece(SOpq):
    """what a read from a file returns"""

    __slots__ = ("file", "size")


def _read(I, f, n=-1):
    n = I.resolve(n)
    it = f.rest
    if it is not None:
        if not it.busy:  # at the end
            return b""
        return models.iter_next(I, it)
    if isinstance(n, int) and n < 0 or n is None:
        return SOpq("bytes", ufn("path.bytes", ObjS, ObjS)(f.t))
    if I.drain is not None and I.drain[:2] == (I.nwrites, len(I.ctx.loops)) and I.ctx.entails(I.int_term(n) > 0):
        f.rest = IterObj(I.ctx, _pieces(I, _piece(I, f, n), b""))
        if f.rest.segs:
            raise Drain(f.rest)
        return b""
    return _piece(I, f, n)


def _piece(I, f, n):
    p = Piece("piece", ufn("piece", ObjS, IntS, ObjS)(f.t, as_int_term(I.int_term(n))))
    p.file, p.size = f.t, I.int_term(n)
    return p


def _pieces(I, p, stop):
    """one read after the other, up to the end"""
    if stop != b"" or not I.ctx.entails(p.size > 0):
        raise Unsupported("reads")
    a = Atom("pieces", (p.file, p.size), shape=T.Opq("part"))
    if not I.ctx.branch(a.length(I.ctx) > 0):
        I.ctx.assume(ufn("path.bytes", ObjS, ObjS)(p.file) == EMPTY)
        return []
    return [Blk(a, z3.IntVal(0), a.length(I.ctx))]


def _truth(I, p):
    raise Unsupported("truth of what is read")


class Part:
    """some bytes, not none"""


libmodels.OPQ_TRUTH["piece"] = _truth
libmodels.OPQ_CLASS["part"] = Part
EMPTY = z3.Const("no bytes", ObjS)


class Hash:
    """a hash of everything it was updated with (trusted: free of collisions)"""


def _hasher(I, data=None, **k):
    l = PList(I.ctx)
    if data is not None:
        l.segs = [Unit(I.resolve(data))]
    return PObj(I.ctx, Hash, {"data": l})


def _digest(I, segs):
    segs = I.norm_segs(segs)
    if not segs:
        return I.ctx.mkstr(ufn("digest", ObjS, StrS)(EMPTY))
    if len(segs) == 1 and isinstance(segs[0], Blk) and segs[0].atom.name == "pieces" and not segs[0].rev:
        b = segs[0]
        if I.ctx.entails(z3.And(as_int_term(b.lo) == 0, as_int_term(b.hi) == b.atom.length(I.ctx))):
            return I.ctx.mkstr(ufn("digest", ObjS, StrS)(ufn("path.bytes", ObjS, ObjS)(b.atom.args[0])))
    if len(segs) == 1 and isinstance(segs[0], Unit) and isinstance(segs[0].v, SOpq) and segs[0].v.tag == "bytes":
        return I.ctx.mkstr(ufn("digest", ObjS, StrS)(segs[0].v.t))
    if I.env.small and all(isinstance(s, Unit) and isinstance(s.v, SOpq) and s.v.tag == "part" for s in segs):
        raise Unsupported("some pieces")
    sk, ts = I.flatten(PList(I.ctx, segs))
    return I.ctx.mkstr(ufn("digest:" + sk, *[t.sort() for t in ts], StrS)(*ts))


for f in ("md5", "sha1", "sha256", "sha512", "sha3_256", "blake2b"):
    models.BUILTINS[getattr(hashlib, f)] = _hasher
libmodels.OBJ_ATTR[("Hash", "update")] = lambda I, a, k: models.list_append(I, a[0].attrs["data"], I.resolve(a[1]))
libmodels.OBJ_ATTR[("Hash", "hexdigest")] = lambda I, a, k: _digest(I, a[0].attrs["data"].segs)
models.BUILTINS[open] = _open_bytes
A[("path", "open")] = _open_bytes
A[("bfile", "__enter__")] = lambda I, f: f
A[("bfile", "__exit__")] = lambda I, f, *a: None
A[("bfile", "close")] = lambda I, f: None
A[("bfile", "read")] = _read
A[("piece", "repeated")] = _pieces


@prim(lambda I, p: I.ctx.mkstr(ufn("digest", ObjS, StrS)(ufn("path.bytes", ObjS, ObjS)(I.resolve(p).t))))
def digest(path):
    return hashlib.md5(path.read_bytes()).hexdigest()


def _digest_now(I, p):
    """of what is in the file by now"""
    p = I.resolve(p)
    for s in I.effects.segs:
        v = s.v if isinstance(s, Unit) else None
        if v is not None and v[0] == "save" and I.ctx.entails(v[1].t == p.t):
            return I.ctx.mkstr(ufn("digest", ObjS, StrS)(SOpq("bytes", z3.Const("upload", ObjS)).t))
    return I.ctx.mkstr(ufn("digest", ObjS, StrS)(ufn("path.bytes", ObjS, ObjS)(p.t)))


@prim(_digest_now)
def digest_now(path):
    raise NotImplementedError


Contract(SRV + "md5sum", lambda fpath, chunk_bytes: digest(fpath), lambda B: ([B.opq("path", "file"), B.int("size", lo=1)], {}), props=["C22"], use=False)
Contract(SRV + "md5sum", lambda fpath: digest(fpath), lambda B: ([B.opq("path", "file")], {}), variant="default", props=["C22"], use=False)


# the tables of a report (C23) ---------------------------------------------------
def _parse_file(I, src, parser=None):
    src = I.resolve(src)
    if isinstance(src, SOpq) and src.tag == "path":
        src = SOpq("zfile", ufn("path.file", ObjS, ObjS)(src.t))
    return world._parse(I, src, parser)


from lxml import etree

models.BUILTINS[etree.parse] = _parse_file


@opaque(T.str)
def source(e):
    """the text of an element"""
    raise NotImplementedError


@prim(lambda I, p: _parse_file(I, p, I.call(safe_parser, [], {})))
def page(path):
    """the HTML model; entities are not resolved"""
    raise NotImplementedError


def find_step(ident, st, e):
    if e.get("id") == ident:
        return ("STOP", {"found": e})
    return st


FIND = Fold("find", {"found": T.opt(T.Opq("elem"))}, lambda ident: {"found": None}, find_step)


def table_of(doc, ident):
    """the first table with the id"""
    st = fold(FIND, xp(doc, "./body/table[@id]"), ident)
    return st["found"] if st["stopped"] else None


def show_step(doc, st, fig):
    e = table_of(doc, number(fig))
    if e is not None:
        st["shown"][fig] = source(e)
    return st


SHOW = Fold("show", {"shown": T.Map(T.str)}, lambda doc: {"shown": {}}, show_step)


def figures(figs, html_doc):
    """the text of the first table of each figure which has one"""
    return fold(SHOW, figs, page(html_doc))["shown"]


@opaque(T.Map(T.str))
def figures_of(figs, html_doc):
    raise NotImplementedError


@opaque(T.bool)
def unreadable(html_doc):
    raise NotImplementedError


def figures_called(figs, html_doc):
    if unreadable(html_doc):
        raise ValueError("html")
    return figures_of(figs, html_doc)


def _get(I, e, k, default=None):
    k = I.resolve(k)
    if not isinstance(k, str):
        raise Unsupported("attribute by computed name")
    if not I.ctx.branch(ufn(f"elem.has@{k}", ObjS, BoolS)(e.t)):
        return default
    return I.ctx.mkstr(ufn(f"elem@{k}", ObjS, StrS)(e.t))


def sources(I, env, B):
    env.contracts = dict(env.contracts)
    env.contracts["spex.xml:XmlUtils.fmt"] = Stand(lambda e: source(e))
    env.opq_attr[("elem", "get")] = _get


def number(fig):
    """the number of the table: the part before the first underscore"""
    return fig.split("_")[0]


def show_rules(I, B, a):
    return [("figs", lambda b: SHOW.at(I.call(page, [a[1]], {}))), ("xp:./body/table[@id]", lambda b: FIND.at(I.call(number, [I.elems["figs"]], {})) if "figs" in I.elems else None)]


Contract("spexsrv.application.report_view:get_erroneous_figures", figures, called=figures_called, args=lambda B: ([B.seq(T.str, "figs"), B.opq("path", "html")], {}), setup=sources,
         fold_rules=show_rules, props=["C23"])


# what a request is answered with (C22, C23) ---------------------------------------
class Lookup:
    """address of a completed upload -> its JSON model in the cache"""


class Abort(Exception):
    """the request is answered with an error"""


class NotFound(Abort):
    pass


class BadRequest(Abort):
    pass


class Holder:
    """stands for an object of the framework"""


ERRORS = {404: NotFound, 400: BadRequest}


def _abort(I, code, *a, **k):
    c = I.resolve(code)
    if c not in ERRORS:
        raise Unsupported(f"status {c}")
    raise I.exc(ERRORS[c], c)


def _lookup_get(I, a, k):
    m, key = a[0].attrs["map"], I.resolve(a[1])
    if any(isinstance(s, Unit) and s.v[0] == "publish" for s in I.effects.segs):
        raise Unsupported("cache read after it was changed")
    if I.ctx.branch(ufn("cache.has", StrS, BoolS)(I.ctx.sterm(key))):
        return SOpq("path", ufn("cache.file", StrS, ObjS)(I.ctx.sterm(key)))
    return I.resolve(a[2]) if len(a) > 2 else None


def _lookup_item(I, a, k):
    v = _lookup_get(I, a[:2], k)
    if v is None:
        raise I.exc(KeyError, a[1])
    return v


OA = libmodels.OBJ_ATTR
OA[("Lookup", "get")] = _lookup_get
OA[("Lookup", "__getitem__")] = _lookup_item
OA[("Lookup", "__contains__")] = lambda I, a, k: _lookup_get(I, a[:2], k) is not None
OA[("Lookup", "__setitem__")] = lambda I, a, k: I.effect("publish", I.resolve(a[1]), I.resolve(a[2]))


@prim(lambda I, h: _lookup_get(I, [PObj(I.ctx, Lookup, {"map": None}), h], {}))
def cached(hash):
    raise NotImplementedError


def _url(I, endpoint, **k):
    sk, ts = I.flatten([endpoint] + [x for n in sorted(k) for x in (n, k[n])])
    return I.ctx.mkstr(ufn("url:" + sk, *[t.sort() for t in ts], StrS)(*ts))


@prim(_url)
def url_for(endpoint, **k):
    raise NotImplementedError


class Sent:
    """the content of a file as response"""


@prim(lambda I, p: PObj(I.ctx, Sent, {"file": I.resolve(p)}))
def sent(path):
    raise NotImplementedError


models.BUILTINS[srv.abort] = _abort
models.BUILTINS[srv.url_for] = _url
models.BUILTINS[quart.helpers.send_file] = lambda I, p, **k: PObj(I.ctx, Sent, {"file": I.resolve(p)})


def _with_suffix(I, p, s):
    return SOpq("path", ufn("path.with_suffix", ObjS, StrS, ObjS)(p.t, I.ctx.sterm(I.resolve(s))))


A[("path", "with_suffix")] = _with_suffix

MODEL = T.Rec((("meta", T.Rec((("lint", T.List(T.Rec((("fig", T.str, False),))), False),)), False), ("entities", T.Opq("json"), False)))


def _model(I, f):
    """the model which was written there"""
    from pyvc.core import build

    f = I.resolve(f)
    if not I.ctx.branch(ufn("json.readable", ObjS, BoolS)(f.t)):
        raise I.exc(ValueError, "json")
    return build(I.ctx, MODEL, lambda suf, so: ufn("model" + suf, ObjS, so)(f.t), "model")


@prim(lambda I, p: _model(I, p))
def model_in(path):
    raise NotImplementedError


SHOWN = ("report_json", "report_html", "erroneous_figure_ids", "title", "bundle", "link_json", "link_html")


@prim(lambda I, tpl, **k: I.effect("render", tpl, {n: world.snapshot(I, k.get(n)) for n in SHOWN}))
def rendered(tpl, **k):
    raise NotImplementedError


def server(I, env, B):
    env.contracts = dict(env.contracts)
    env.contracts[SRV + "render_template"] = Stand(lambda tpl, **k: rendered(tpl, **k))
    env.contracts[SRV + "json_to_sse"] = Stand(lambda data: Event(data))
    env.contracts[SRV + "md5sum"] = Stand(lambda fpath: digest_now(fpath))
    env.contracts["spex.parse:parse_spec"] = Stand(parse_called)
    lookup = B.raw(Lookup, map=None)
    config = PDict(I.ctx, [[srv.SPEX_CACHE_LOOKUP, lookup], [srv.SPEX_CACHE_TMPDIR, SOpq("tmpdir", z3.Const("cache dir", ObjS))]])
    env.natives[id(srv.app)] = B.raw(Holder, config=config)
    files = PDict(I.ctx, [["document", B.raw(Holder, filename=B.str("filename"), save=B.model(lambda I, a, k: I.effect("save", I.resolve(a[0]))))]])
    files.maybe["document"] = z3.Const("has document", BoolS)
    env.natives[id(quart.request)] = I.request = B.raw(Holder, files=files, accept_mimetypes=SOpq("mimetypes", z3.Const("accepted", ObjS)),
                                                       args=B.raw(Holder, get=B.model(lambda I, a, k: I.ctx and B(T.opt(T.str), "arg:" + I.resolve(a[0])))))
    env.models["json:load"] = lambda I, a, k: _model(I, a[0])


A[("mimetypes", "__contains__")] = lambda I, m, x: ufn("accepts", StrS, BoolS)(I.ctx.sterm(I.resolve(x)))
A[("tmpdir", ".name")] = world.strfn("tmpdir.name")


def report_spec(hash):
    """the model which is served under the address, with the tables of the figures which have issues"""
    p = cached(hash)
    if p is None or not p.is_file():
        raise NotFound(404)
    m = model_in(p)
    figs = set([e["fig"].split("_")[0] for e in m["meta"]["lint"]])
    html = p.with_suffix(".html")
    if unreadable(html):
        raise ValueError("html")
    bundle = argument("bundle") is not None
    return rendered("report.html", title="Report", report_json=m, report_html=figures_of(list(figs), html), erroneous_figure_ids=list(figs), bundle=bundle,
                    link_json=None if bundle else url_for("json_report", hash=hash, bundle=1), link_html=None if bundle else url_for("html_report", hash=hash, bundle=1))


@prim(lambda I, n: I.call(I.request.attrs["args"].attrs["get"], [n], {}))
def argument(name):
    raise NotImplementedError


def json_spec(hash):
    p = cached(hash)
    if p is None:
        raise NotFound(404)
    return sent(p)


def html_spec(hash):
    p = cached(hash)
    if p is None:
        raise NotFound(404)
    return sent(p.with_suffix(".html"))


Contract(SRV + "report", report_spec, lambda B: ([B.str("hash")], {}), setup=server, props=["C22", "C23"], use=False)
Contract(SRV + "json_report", json_spec, lambda B: ([B.str("hash")], {}), setup=server, props=["C22"], use=False)
Contract(SRV + "html_report", html_spec, lambda B: ([B.str("hash")], {}), setup=server, props=["C22"], use=False)


# an upload (C21, C22) ---------------------------------------------------------------
class Event:
    """what the client is told"""

    def __init__(self, data):
        self.data = data


class Response:
    """a stream of events"""


@opaque(T.List(T.Tuple((T.str, T.int, T.int))))
def progress(path):
    raise NotImplementedError


@opaque(T.bool)
def conversion_fails(path):
    raise NotImplementedError


@prim(lambda I, *a: I.effect("convert", *a))
def conversion(path, out, skip, ignored):
    raise NotImplementedError


def _steps(I, g):
    """the steps of a generator one by one; what it does is done by the first of them"""
    run, steps = g.run, []

    def start():
        out = PList(I.ctx)

        def emit(v):
            check()
            out.segs = out.segs + [Unit(v)]

        def extend(segs):
            check()
            out.segs = out.segs + list(segs)

        def check():
            if out.segs and I.effects.segs != at[0]:
                raise Unsupported("a step with an effect")
            at[0] = I.effects.segs

        at, end = [None], None
        try:
            value = run(Sink(emit, extend))
        except PyExc as e:
            value, end = None, e
        check()
        steps.append((IterObj(I.ctx, out.segs), value, end))

    def step(I, g, *d):
        if not steps:
            first = I.drain is not None and I.drain[0] == I.nwrites
            start()
            if first:
                I.drain = (I.nwrites,) + I.drain[1:]
        it, value, end = steps[0]
        v = models.iter_next(I, it, OVER)
        if v is not OVER:
            return v
        g.done = True
        if end is not None:
            raise end
        if d:
            return d[0]
        raise I.exc(StopIteration, value)

    g.next = step
    return g


OVER = SOpq("over", z3.Const("over", ObjS))


@prim(_steps)
def stepwise(g):
    raise NotImplementedError


def parse_called(spec, args, yield_progress=False):
    return stepwise(converted(spec, args, yield_progress))


def converted(spec, args, yield_progress):
    """see the contract of parse_spec"""
    conversion(spec, args.output_dir, args.skip_fig_on_error, list(args.lint_codes_ignore))
    if yield_progress:
        yield from progress(spec)
    if conversion_fails(spec):
        raise ValueError("document")
    return target(args.output_dir, spec)


@prim(lambda I, e: I.effect("send", world.snapshot(I, I.getattr(e, "data"))))
def send(event):
    raise NotImplementedError


@prim(lambda I: I.effect("failed"))
def broken():
    raise NotImplementedError


def _response(I, body, *a, **k):
    """the stream is consumed"""
    body = I.resolve(body)
    if not isinstance(body, GenObj):
        raise Unsupported("response without stream")
    body.done = True

    def emit(v):
        I.effect("send", world.snapshot(I, I.getattr(I.resolve(v), "data")))

    def extend(segs):
        raise Unsupported("events at once")
    try:
        body.run(Sink(emit, extend))
    except PyExc:
        I.effect("failed")
    return PObj(I.ctx, Response, {})


def _is_dir(I, n):
    d = SOpq("tmpdir", ufn("tmpdir", IntS, ObjS)(z3.IntVal(n % 1000)))
    return ufn("path.is_dir", ObjS, BoolS)(world.as_path(I, I.getattr(d, "name")).t)


def _tmp(I, *a, **k):
    """a new directory of its own"""
    n = I.tmps = getattr(I, "tmps", 0) + 1
    I.ctx.assume(_is_dir(I, n))
    return SOpq("tmpdir", ufn("tmpdir", IntS, ObjS)(z3.IntVal(n % 1000)))


models.BUILTINS[srv.make_response] = _response
models.CTOR[tempfile.TemporaryDirectory] = _tmp
A[("tmpdir", "cleanup")] = lambda I, t: I.effect("cleanup", t)
A[("tmpdir", "__enter__")] = lambda I, t: I.getattr(t, "name")
A[("tmpdir", "__exit__")] = lambda I, t, *a: I.effect("cleanup", t)
for f in ("copy", "copyfile", "copy2"):
    models.BUILTINS[getattr(shutil, f)] = lambda I, a, b: I.effect("copy", I.resolve(a), I.resolve(b))


@prim(lambda I: SOpq("tmpdir", ufn("tmpdir", IntS, ObjS)(z3.IntVal(1))))
def own_directory():
    raise NotImplementedError


@prim(lambda I, t: I.effect("cleanup", I.resolve(t)))
def cleanup(tmp):
    raise NotImplementedError


@prim(lambda I, a, b: I.effect("copy", I.resolve(a), I.resolve(b)))
def copy(a, b):
    raise NotImplementedError


@prim(lambda I, h, p: I.effect("publish", I.resolve(h), I.resolve(p)))
def publish(h, p):
    raise NotImplementedError


@prim(lambda I, p: I.effect("save", I.resolve(p)))
def save(p):
    raise NotImplementedError


@prim(lambda I, s: world.as_path(I, s))
def path_of(s):
    raise NotImplementedError


@prim(lambda I: PObj(I.ctx, Response, {}))
def stream():
    raise NotImplementedError


def upload(files, accepted, cache):
    """the document is kept and converted in a directory of its own, which is removed in the end; what
    the conversion made is copied to the cache under the hash of the content, and only then announced"""
    if "document" not in files:
        return 422
    if "text/event-stream" not in accepted:
        raise BadRequest(400)
    name = path_of(files["document"].filename).name
    if name in ("", "..") or "\0" in name:
        return 422
    tmp = own_directory()
    out = path_of(tmp.name)
    doc = out / name
    save(doc)
    h = digest_now(doc)
    url = url_for("report", hash=h)
    conversion(doc, out, True, [])
    for phase, i, n in progress(doc):
        send(Event({"type": "progress-update", "phase": phase, "fig_ndx": i, "num_figs": n}))
    if conversion_fails(doc):
        cleanup(tmp)
        broken()
        return 200
    p = target(out, doc)
    entry = path_of(cache.name) / f"{h}.json"
    copy(p, entry)
    copy(p.with_suffix(".html"), entry.with_suffix(".html"))
    publish(h, entry)
    send(Event({"type": "report-completed", "url": url}))
    cleanup(tmp)
    return 200


def status_of(I, v):
    v = I.resolve(v)
    if isinstance(v, PObj):
        return 200
    return I.resolve(v[1]) if isinstance(v, tuple) else v


Contract(SRV + "spec_parse", upload, lambda B: ([], {}), spec_args=lambda B: ([B.I.request.attrs["files"], B.I.request.attrs["accept_mimetypes"], SOpq("tmpdir", z3.Const("cache dir", ObjS))], {}),
         setup=server, view=status_of, props=["C21", "C22"], use=False)


# what the stream consists of ---------------------------------------------------------
def dumping(I, env, B):
    env.models["json:dumps"] = lambda I, a, k: dumped_of(I, a[0])


def dumped_of(I, d):
    return I.ctx.mkstr(ufn("json.text", ObjS, StrS)(I.resolve(d).t))


@prim(dumped_of)
def dumped(data):
    return json.dumps(data)


Contract(SRV + "json_to_sse", lambda data: ("data: " + dumped(data) + "\n\n").encode("utf-8"), lambda B: ([B.opq("json", "data")], {}), setup=dumping, props=["C22"], use=False)


# the history of a server (C22) --------------------------------------------------------
def starting(I, env, B):
    I.conf = PDict(I.ctx, [])
    env.natives[id(srv.logger)] = BLACKHOLE
    env.natives[id(srv.app)] = B.raw(Holder, config=I.conf, template_folder=B.str("templates"), static_folder=B.str("static"))


def cache_at_start(I, r):
    """nothing was completed yet, the cache is a directory of its own"""
    def get(k):
        return next((v for n, v in I.conf.entries if n == k), "missing")
    t = I.resolve(get(srv.SPEX_CACHE_LOOKUP))
    return (isinstance(t, PDict) and t.base is None and not t.entries, I.resolve(get(srv.SPEX_CACHE_TMPDIR)))


Contract(SRV + "_app_init", lambda: (True, own_directory()), lambda B: ([], {}), setup=starting, view=cache_at_start, props=["C22"], use=False)


def same_entry(h, g):
    return f"{h}.json" == f"{g}.json"


# lemma: an upload replaces what is served under its own address only (see the contract of spec_parse)
Contract("vspec.contracts_srv:same_entry", lambda h, g: h == g, lambda B: ([B.str("h"), B.str("g")], {}), variant="lemma", props=["C22"], use=False)
