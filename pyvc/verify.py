"""Contracts and the verification harness.

A contract for a function f of /repo is an executable specification: a plain
Python procedure of /verif/vspec that says what f returns or raises, which
lint issues it emits and how it leaves its arguments.  f is *verified against*
it by running both symbolically on the same arbitrary arguments (same leaf
names, separate heaps) and discharging the equality of everything observable.
At a call site of f the contract stands in for the body.
"""
from __future__ import annotations

import functools
import importlib
import time
import traceback
import types
from typing import Any, Dict, List

import z3

from . import interp as ip
from .core import (
    Blk, BoolS, Explorer, IntS, Mut, ObjS, Obligation, PDict, PList, PObj, PSet,
    PathEnd, SOpq, StrS, SUnion, T, Unit, Unsupported, build, clean, ufn,
)
from .mark import OPAQUE, PRIMS, fn_key, opaque, prim
from .interp import BLACKHOLE, Bound, Closure, GenObj, Interp, Model, PyExc, Sink

CONTRACTS: Dict[str, "Contract"] = {}
TASKS: List["Contract"] = []

class Contract:
    def __init__(self, key, spec, args, *, reveal=(), focus=None, ignore=(),
                 folds=None, inline=(), setup=None, budget=60.0, use=True,
                 post=None, max_paths=6000, note="", variant="", props=(), frame_on_raise=True,
                 view=None, exits=False, called=None, yields=None, returns=None, written=None, fold_rules=None, spec_args=None, arg_view=None, loops=None, frame=None):
        self.frame = frame  # what of an argument is compared afterwards
        self.spec_args = spec_args or args  # the same arguments as the specification sees them ...
        self.arg_view = arg_view  # ... and what of the code's arguments corresponds to that
        self.yields, self.returns = yields, returns  # the shape of what it yields and returns, an obligation of its own
        self.written = written  # the shape of every structure it writes as JSON when it completes
        self.loops = loops  # recursive definitions of while loops
        self.fold_rules = fold_rules  # folds of inner loops, made when the loop is entered
        self.called = called or spec  # what callers rely on (a function defined by the specification, recursively)
        self.view = view  # what of the result can be observed
        self.exits = exits  # a program: its outcome is its exit status
        self.frame_on_raise = frame_on_raise  # compare the arguments after an exception, too
        self.variant = variant
        self.props = tuple(props)
        self.key = key
        self.spec = spec
        self.args = args
        self.reveal = {fn_key(f) for f in reveal} | ({fn_key(spec)} if spec else set())
        self.focus = focus
        self.ignore = set(ignore)
        self.folds = folds
        self.inline = set(inline)
        self.setup = setup
        self.budget = budget
        self.use = use
        self.post = post
        self.max_paths = max_paths
        self.note = note
        CONTRACTS.setdefault(key, self)
        TASKS.append(self)

    @property
    def name(self):
        return self.key.split(":")[1] + (f"<{self.variant}>" if self.variant else "")

    def target(self):
        mod, qn = self.key.split(":")
        o: Any = importlib.import_module(mod)
        for p in qn.split("."):
            if isinstance(o, type) and p[:2] == "__" and p[-2:] != "__":
                p = "_" + o.__name__.lstrip("_") + p
            if isinstance(o, type) and p in o.__dict__:
                o = o.__dict__[p]
                if isinstance(o, (staticmethod, classmethod)):
                    o = o.__func__
                elif isinstance(o, property):
                    o = o.fget
                elif isinstance(o, functools.cached_property):
                    o = o.func
            else:
                o = getattr(o, p)
        if isinstance(o, functools._lru_cache_wrapper):
            o = o.__wrapped__
        return o


class Env:
    """policy and library models for one verification run."""

    def __init__(self, contract=None, modular=True, peel=False, small=0):
        from . import libmodels

        self.contract = contract
        self.modular = modular
        self.models: Dict[str, Any] = dict(libmodels.MODELS)
        self.ctors: Dict[str, Any] = dict(libmodels.CTORS)
        self.opq_attr = dict(libmodels.OPQ_ATTR)
        self.opq_iter = dict(libmodels.OPQ_ITER)
        self.opq_truth = dict(libmodels.OPQ_TRUTH)
        self.opq_class = dict(libmodels.OPQ_CLASS)
        self.opq_built = libmodels.OPQ_BUILT
        self.of_kind = lambda v, kind: libmodels.OPQ_KIND[kind](v)
        self.obj_attr: Dict[Any, Any] = dict(libmodels.OBJ_ATTR)
        self.frame_serial = -1
        self.ignore_keys = set(contract.ignore) if contract else set()
        self.max_unroll = 64
        self.peel = peel
        self.small = small
        self.contracts = CONTRACTS
        self.revealed = set(contract.reveal) if contract else set()
        self.skip_once = None
        self.pattern_names = libmodels.PATTERN_NAMES
        self.spec_side = False
        self.fold_rules = []
        self.loops = []
        self.natives: Dict[int, Any] = {}  # id of a global object -> what stands for it

    def obj_key(self, I, x):
        if x.cls.__name__ in ("TraceLinter",):
            return "linter"
        k = x.attrs.get("__ident__")
        if k is not None:
            return k
        return None

    def is_blackhole(self, o):
        from . import libmodels

        return libmodels.is_blackhole(o)

    def fn_key(self, fn):
        return fn_key(fn)

    def interpretable(self, fn):
        m = getattr(fn, "__module__", "") or ""
        return isinstance(fn, types.FunctionType) and fn.__code__.co_filename[:1] != "<" and (
            m.split(".")[0] in ("spex", "spexsrv", "vspec", "pyvc_demo", "contextlib", "gcgen")
        )

    def is_spec(self, fn):
        return (getattr(fn, "__module__", "") or "").startswith("vspec")

    def class_ok(self, cls):
        return cls.__module__.split(".")[0] in ("spex", "spexsrv", "vspec", "pyvc_demo", "gcgen")

    def pattern_name(self, p):
        return self.pattern_names.get((p.pattern, p.flags)) or f"re:{p.pattern}/{p.flags}"

    def use_contract(self, I, key, c):
        if not self.modular or not c.use:
            return False
        if self.skip_once == key:
            self.skip_once = None
            return False
        if self.contract is not None and key in self.contract.inline:
            return False
        return True

    def apply_contract(self, I, key, c, args, kw):
        return I.call(c.called, args, kw)


def apply_opaque(I, fn, shape, args, kw):
    sk, terms = I.flatten(list(args) + [kw[k] for k in sorted(kw)])
    nm = f"spec:{fn.__qualname__}{sk}"
    sorts = [t.sort() for t in terms]

    def leaf(suf, so):
        if not terms:
            return z3.Const(clean(nm + suf), so)
        return ufn(nm + suf, *sorts, so)(*terms)

    return build(I.ctx, shape, leaf, nm)


class VInterp(Interp):
    """interpreter that knows spec primitives and opaque spec functions."""

    def _call(self, fn, args, kw):
        if isinstance(fn, types.FunctionType):
            key = fn_key(fn)
            p = PRIMS.get(key)
            if p is not None:
                return p(self, *args, **kw)
            sh = OPAQUE.get(key)
            if sh is not None and key not in self.env.revealed:
                return apply_opaque(self, fn, sh, args, kw)
        return super()._call(fn, args, kw)


class Builder:
    """builds symbolic arguments; `tag` keeps the heaps of the real and the
    specification run apart while the leaves have the same names."""

    def __init__(self, I):
        self.I = I
        self.ctx = I.ctx
        self.named: Dict[str, Any] = {}

    def __call__(self, shape, name):
        v = build(self.ctx, shape, lambda suf, so: z3.Const(clean(name + suf), so), name)
        return v

    def str(self, name):
        return self(T.str, name)

    def int(self, name, lo=None):
        v = self(T.int, name)
        if lo is not None:
            self.ctx.axiom_once(("lo", name), v.t >= lo)
        return v

    def bool(self, name):
        return self(T.bool, name)

    def opq(self, tag, name):
        return SOpq(tag, z3.Const(clean(name), ObjS))

    def seq(self, elem, name):
        from .core import Atom

        a = Atom(name, (), shape=elem)
        return PList(self.ctx, [Blk(a, z3.IntVal(0), a.length(self.ctx))])

    def new(self, cls, *args, **kw):
        return self.I.call(cls, list(args), kw)

    def raw(self, cls, **attrs):
        return PObj(self.ctx, cls, dict(attrs))

    def ghost(self, o, **attrs):
        """attach specification-only attributes"""
        o.attrs["__ident__"] = (self.opq("doc", "self"),)
        for k, v in attrs.items():
            o.attrs[k] = self.I.lift(v) if isinstance(v, (dict, list)) else v

    def model(self, fn, name=""):
        return Model(fn, name)


def drive(I, r):
    """exhaust a generator: (yielded values, return value)"""
    if isinstance(r, ip.CoroObj):
        r = r.run()
    if isinstance(r, GenObj):
        out = I.yielded = PList(I.ctx)
        r.done = True

        def emit(v):
            I.on_write(out, "segs")
            out.segs = out.segs + [Unit(v)]

        def extend(segs):
            I.on_write(out, "segs")
            out.segs = out.segs + list(segs)

        try:
            v = r.run(Sink(emit, extend))
        except PyExc as e:
            return out, ("raise", e.exc.cls, e)
        return out, ("return", v)
    return None, ("return", r)


def run_side(I, fn, args, kw):
    I.effects = PList(I.ctx, [])
    try:
        r = I.call(fn, args, kw)
        ys, res = drive(I, r)
    except PyExc as e:
        ys, res = None, ("raise", e.exc.cls, e)
    return ys, res, I.effects


def verify(c: Contract, modular=True, budget=None, cross=False, peel=False, small=0):
    """discharge the obligations of one contract; returns the Explorer."""
    ex = Explorer(c.key, budget or c.budget, c.max_paths, cross)
    try:
        target = c.target()
    except (ImportError, AttributeError) as e:
        ex.obligations.append(Obligation(c.name + ":exists", "unsupported", "engine", 0.0, f"function not found: {e}"))
        return ex
    t0 = time.time()
    ex.tolerant = bool(small)

    def one(path):
        env = Env(c, modular, peel, small)
        I = VInterp(path, env)
        B = Builder(I)
        if c.setup:
            c.setup(I, env, B)
        args_r, kw_r = c.args(B)
        if c.loops:
            env.loops = [functools.partial(f, I, B, args_r) for f in c.loops]
        if c.fold_rules:
            env.fold_rules = c.fold_rules(I, B, args_r)
        if c.folds:
            for lst, F in c.folds(I, B, args_r):
                reg_fold(I, lst, F)
        env.skip_once = c.key
        ys_r, res_r, eff_r = run_side(I, target, args_r, kw_r)
        args_s, kw_s = c.spec_args(B)
        env.spec_side = True
        ys_s, res_s, eff_s = run_side(I, c.spec, args_s, kw_s)
        env.spec_side = False
        n = c.name
        forms(I, path, c, ys_r, res_r, eff_r)
        if c.exits:
            res_r, res_s = exit_status(res_r), exit_status(res_s)
        if c.view:
            res_r, res_s = [(k[0], c.view(I, k[1])) if k[0] == "return" else k for k in (res_r, res_s)]
        if res_r[0] != res_s[0]:
            what = f"code {show_res(res_r)} / specification {show_res(res_s)}"
            path.prove(f"{n}:outcome", False, what)
            return
        if res_r[0] == "raise":
            ok = isinstance(res_r[1], type) and issubclass(res_r[1], res_s[1])
            path.prove(f"{n}:exception", True if ok else False, f"{res_r[1]} / {res_s[1]}")
        else:
            compare(I, path, f"{n}:result", res_r[1], res_s[1])
        if ys_r is not None or ys_s is not None:
            if ys_r is None or ys_s is None:
                # a generator and a list are both acceptable sources
                ys_r = ys_r if ys_r is not None else res_r[1]
                ys_s = ys_s if ys_s is not None else res_s[1]
            compare(I, path, f"{n}:yields", ys_r, ys_s)
        compare(I, path, f"{n}:effects", eff_r, eff_s)
        la, lb = list(args_r) + [kw_r[k] for k in sorted(kw_r)], list(args_s) + [kw_s[k] for k in sorted(kw_s)]
        if res_r[0] == "raise" and not c.frame_on_raise:
            return
        if c.arg_view:
            la = [c.arg_view(I, a) for a in la]
        if c.frame:
            la, lb = [c.frame(I, a) for a in la], [c.frame(I, b) for b in lb]
        for j, (a, b) in enumerate(zip(la, lb)):
            compare(I, path, f"{n}:argument {j} afterwards", a, b)
        if c.post:
            c.post(I, path, args_r, res_r, args_s, res_s)

    ex.run(one)
    ex.seconds = time.time() - t0
    return ex


def forms(I, path, c, ys, res, eff):
    """what the code itself yields, returns and writes has the declared shape"""
    n = c.name
    if c.yields is not None:
        v = I.resolve(ys if ys is not None else res[1])
        path.prove(f"{n}:form of what it yields", I.conforms(v, T.List(c.yields)), lambda: repr(v)[:600])
    if res[0] != "return":
        return
    if c.returns is not None:
        path.prove(f"{n}:form of the result", I.conforms(I.resolve(res[1]), c.returns), lambda: repr(res[1])[:600])
    if c.written is not None:
        for s in eff.segs:
            if isinstance(s, Unit) and s.v[0] == "json.dump":
                path.prove(f"{n}:form of the model", I.conforms(s.v[2], c.written), lambda: repr(s.v[2])[:600])


def exit_status(r):
    if r[0] == "return":
        return ("return", 0)
    if issubclass(r[1], SystemExit):
        code = (list(r[2].exc.attrs.get("args", ())) + [None])[0]
        if code is not None and not isinstance(code, (int, str)):
            raise Unsupported("exit status")
        return ("return", 0 if code in (None, 0, False) else 1)
    return ("return", 1)


def show_res(r):
    if r[0] == "raise":
        return f"raises {getattr(r[1], '__name__', r[1])} {r[2].exc.attrs.get('args')!r}"
    return f"returns {r[1]!r}"[:200]


def compare(I, path, name, a, b):
    gs = I.goals(a, b, "")
    if not gs:
        path.prove(name, True)
        return
    for w, c in gs:
        path.prove(name + w, c, lambda: f"{a!r} / {b!r}"[:600])


def reg_fold(I, lst, F):
    lst = I.resolve(lst)
    for s in I.segs_of(lst):
        if isinstance(s, Blk):
            F, s = I.canonical(F, s)
            I.folds.setdefault((s.atom.key, s.rev), []).append(F)


def summary(ex):
    d: Dict[str, int] = {}
    for o in ex.obligations:
        d[o.status] = d.get(o.status, 0) + 1
    return d
