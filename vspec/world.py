"""Trusted models of the outside world: paths, files, json, processes.

Calls into the world are recorded, in order, in the effect trace, which code
and specification have to produce alike.  What the world answers (names,
contents, existence) is an arbitrary function of the path."""
import importlib.resources
import io
import json
import os
import pathlib
import sys
import textwrap

import jsonschema
from lxml import etree

import z3

from pyvc import interp as ip
from pyvc import libmodels, models
from pyvc.core import Atom, Blk, BoolS, IntS, Mut, ObjS, PDict, PList, PObj, PSet, SBool, SInt, SOpq, SStr, StrS, Sym, T, Unit, Unsupported, as_int_term, ufn
from pyvc.interp import Bound, Model

A = libmodels.OPQ_ATTR


def strfn(name):
    return lambda I, x: I.ctx.mkstr(ufn(name, ObjS, StrS)(I.resolve(x).t))


def boolfn(name):
    return lambda I, x: SBool(ufn(name, ObjS, BoolS)(I.resolve(x).t))


def snapshot(I, v):
    """value of a (JSON-like) structure at this moment"""
    v = I.resolve(v)
    if isinstance(v, PList):
        return PList(I.ctx, [Unit(snapshot(I, s.v)) if isinstance(s, Unit) else s for s in v.segs])
    if isinstance(v, PDict):
        d = PDict(I.ctx, [[k, snapshot(I, x)] for k, x in v.entries], v.base, dict(v.maybe))
        return d
    if isinstance(v, PObj):
        return v
    if isinstance(v, tuple):
        return tuple(snapshot(I, x) for x in v)
    return v


# paths ---------------------------------------------------------------------
libmodels.OPQ_CLASS["path"] = pathlib.Path
A[("path", ".suffix")] = strfn("path.suffix")
A[("path", ".name")] = strfn("path.name")
A[("path", "__str__")] = strfn("path.str")
A[("path", ".parent")] = lambda I, p: SOpq("path", ufn("path.parent", ObjS, ObjS)(p.t))


def path_stem(I, p):
    """the name without its suffix"""
    n, s = strfn("path.name")(I, p), strfn("path.suffix")(I, p)
    k = models.b_len(I, s)
    return I.getslice(n, None, SInt(-as_int_term(k)), None)


def path_join(I, p, x):
    x = I.resolve(x)
    if isinstance(x, (str, SStr)):
        return SOpq("path", ufn("path.join", ObjS, StrS, ObjS)(p.t, I.ctx.sterm(x)))
    return SOpq("path", ufn("path.join2", ObjS, ObjS, ObjS)(p.t, x.t))


A[("path", ".stem")] = path_stem
A[("path", "__truediv__")] = path_join
A[("path", "joinpath")] = path_join
A[("path", "absolute")] = lambda I, p: p
A[("path", "resolve")] = lambda I, p: p
A[("path", "exists")] = boolfn("path.exists")
A[("path", "is_file")] = boolfn("path.is_file")
A[("path", "is_dir")] = boolfn("path.is_dir")


def utf8(encoding):
    return "utf-8" if encoding in (None, "utf-8", "utf8", "UTF-8", "UTF8") else encoding


def read_text(I, p, encoding=None, errors=None):
    if utf8(encoding) != "utf-8":
        raise Unsupported("encoding")
    return strfn("path.content")(I, p)


A[("path", "read_text")] = read_text
A[("path", "read_bytes")] = lambda I, p: SOpq("bytes", ufn("path.bytes", ObjS, ObjS)(p.t))
A[("path", "write_text")] = lambda I, p, s, encoding=None: I.effect("write_text", p, s, utf8(encoding))
A[("path", "write_bytes")] = lambda I, p, s: I.effect("write_bytes", p, I.resolve(s))
A[("path", "unlink")] = lambda I, p, missing_ok=False: I.effect("unlink", p, missing_ok)
A[("path", "mkdir")] = lambda I, p, **k: I.effect("mkdir", p, *(x for kv in sorted(k.items()) for x in kv))


# files ---------------------------------------------------------------------
def as_path(I, p):
    p = I.resolve(p)
    if isinstance(p, (str, SStr)):
        return SOpq("path", ufn("path.of", StrS, ObjS)(I.ctx.sterm(p)))
    return p


def _open(I, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    p = as_path(I, path)
    if "b" in mode:
        raise Unsupported("binary file")
    if mode in ("r", "rt"):
        if utf8(encoding) != "utf-8":
            raise Unsupported("encoding")
        return SOpq("rfile", p.t)
    I.effect("open", p, mode, utf8(encoding))
    return SOpq("file", ufn("file", ObjS, ObjS)(p.t))


models.BUILTINS[open] = _open
models.BUILTINS[io.open] = _open
A[("path", "open")] = _open
A[("file", "close")] = lambda I, f: I.effect("close", f)
A[("file", "flush")] = lambda I, f: None
A[("file", "__enter__")] = lambda I, f: f
A[("file", "__exit__")] = lambda I, f, *a: I.effect("close", f)
A[("rfile", "__enter__")] = lambda I, f: f
A[("rfile", "__exit__")] = lambda I, f, *a: None
A[("rfile", "close")] = lambda I, f: None


def rfile_read(I, f):
    return strfn("path.content")(I, f)


A[("rfile", "read")] = rfile_read


def _dumps(I, doc, *, indent=None, ensure_ascii=True):
    return JsonText(snapshot(I, doc))


class JsonText(Sym):
    """the JSON text of a structure"""

    def __init__(self, doc):
        self.doc = doc
        self.t = z3.IntVal(0)


def _write(I, f, s):
    s = I.resolve(s)
    if isinstance(s, JsonText):
        I.effect("json.dump", f, s.doc)
    else:
        I.effect("write", f, s)


A[("file", "write")] = _write


def _dump(I, doc, f, *, indent=None, ensure_ascii=True):
    I.effect("json.dump", I.resolve(f), snapshot(I, doc))


def _loads(I, s, **k):
    s = I.resolve(s)
    if k or not isinstance(s, SStr):
        raise Unsupported("json.loads")
    t = s.t
    if not I.ctx.branch(ufn("json.wellformed", StrS, BoolS)(t)):
        raise I.exc(json.JSONDecodeError, "not json", "", 0)
    return SOpq("json", ufn("json.value", StrS, ObjS)(t))


models.BUILTINS[json.dump] = _dump
models.BUILTINS[json.dumps] = _dumps
models.BUILTINS[json.loads] = _loads
models.BUILTINS[json.load] = lambda I, f, **k: _loads(I, rfile_read(I, I.resolve(f)), **k)


def _validate(I, doc, schema, **k):
    if k:
        raise Unsupported("validation options")
    doc, schema = I.resolve(doc), I.resolve(schema)
    if not I.ctx.branch(ufn("jsonschema.valid", ObjS, ObjS, BoolS)(doc.t, schema.t)):
        raise I.exc(jsonschema.ValidationError, "invalid")


models.BUILTINS[jsonschema.validate] = _validate


def _files(I, package):
    return as_path(I, "package:" + package)


models.BUILTINS[importlib.resources.files] = _files

# programs ------------------------------------------------------------------
A[("stream", "write")] = lambda I, f, s: None
A[("stream", "flush")] = lambda I, f: None
models.BUILTINS[textwrap.dedent] = lambda I, s: s
models.BUILTINS[pathlib.Path.cwd.__func__] = lambda I, cls: as_path(I, "cwd")
models.CTOR[pathlib.Path] = as_path


def _exit(I, code=None):
    raise I.exc(SystemExit, code)


models.BUILTINS[sys.exit] = _exit


# XML documents -------------------------------------------------------------
libmodels.OPQ_CLASS["xmlparser"] = etree.XMLParser
PARSER_DEFAULTS = dict(encoding=None, attribute_defaults=False, dtd_validation=False, load_dtd=False, no_network=True, ns_clean=False, recover=False, huge_tree=False,
                       remove_blank_text=False, resolve_entities="internal", remove_comments=False, remove_pis=False, strip_cdata=True, collect_ids=True, compact=True)


def _parser(I, **k):
    d = {x: k[x] for x in sorted(k) if not (x in PARSER_DEFAULTS and type(k[x]) is type(PARSER_DEFAULTS[x]) and k[x] == PARSER_DEFAULTS[x])}
    if any(isinstance(x, (Sym, Mut)) for x in d.values()):
        raise Unsupported("parser options")
    # harmless for the result
    for x in ("compact", "huge_tree", "collect_ids", "ns_clean"):
        d.pop(x, None)
    return SOpq("xmlparser", z3.Const(f"xmlparser:{d}", ObjS))


def _parse(I, src, parser=None):
    src, parser = I.resolve(src), I.resolve(parser)
    if parser is None:
        parser = _parser(I)
    if not isinstance(src, SOpq) or src.tag not in ("sio", "zfile"):
        raise Unsupported(f"parse {src!r}")
    if not I.ctx.branch(ufn("xml.wellformed", ObjS, ObjS, BoolS)(src.t, parser.t)):
        raise I.exc(etree.XMLSyntaxError, "not well-formed")
    return SOpq("elem", ufn("xml.tree", ObjS, ObjS, ObjS)(src.t, parser.t))


models.CTOR[etree.XMLParser] = _parser
models.BUILTINS[etree.parse] = _parse
models.CTOR[io.StringIO] = lambda I, s="": SOpq("sio", ufn("StringIO", StrS, ObjS)(I.ctx.sterm(s)))
A[("elem", "getroot")] = lambda I, e: e


# archives ------------------------------------------------------------------
import zipfile


def _zip(I, path, mode="r"):
    p = as_path(I, path)
    if mode != "r":
        raise Unsupported("archive written")
    if not I.ctx.branch(ufn("zip.is_archive", ObjS, BoolS)(p.t)):
        raise I.exc(zipfile.BadZipFile, "not an archive")
    return SOpq("zip", p.t)


def zip_open(I, z, name, mode="r"):
    name = I.resolve(name)
    if mode != "r":
        raise Unsupported("archive written")
    if not I.ctx.branch(ufn("zip.has", ObjS, StrS, BoolS)(z.t, I.ctx.sterm(name))):
        raise I.exc(KeyError, "no such part")
    return SOpq("zfile", ufn("zip.part", ObjS, StrS, ObjS)(z.t, I.ctx.sterm(name)))


def _fromstring(I, text, parser=None):
    text = I.resolve(text)
    if not isinstance(text, SOpq) or text.tag != "zbytes":
        raise Unsupported(f"parse {text!r}")
    return _parse(I, SOpq("zfile", text.t), parser)


models.CTOR[zipfile.ZipFile] = _zip
models.BUILTINS[etree.fromstring] = _fromstring
models.BUILTINS[etree.XML] = _fromstring
for _k in ("zip", "zfile"):
    A[(_k, "__enter__")] = lambda I, z: z
    A[(_k, "__exit__")] = lambda I, z, *a: None
    A[(_k, "close")] = lambda I, z: None
A[("zip", "open")] = zip_open
A[("zip", "read")] = lambda I, z, name: SOpq("zbytes", zip_open(I, z, name).t)
A[("zfile", "read")] = lambda I, f: SOpq("zbytes", f.t)
