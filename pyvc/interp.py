"""Symbolic interpreter for the Python subset used by spex.

Interprets function bodies straight from their source text.  Control flow that
depends on symbolic data forks the path (`ctx.branch`); `for` loops over
symbolic sequences are cut by invariants (see `loop_blk`).
"""
from __future__ import annotations

import ast
import builtins
import collections
import dataclasses
import enum
import functools
import inspect
import re
import types
from typing import Any, Dict, List, Optional, Tuple

import z3

from .core import (
    Atom, NoBranch, tkey, Blk, BoolS, Infeasible, IntS, MapAtom, Mut, ObjS, Path, PathEnd, PDict,
    PList, PObj, PSet, Restart, SBool, SInt, SOpq, SStr, StrS, SUnion, Sym, T, Unit,
    Unsupported, as_int_term, build, clean, simp, ufn, _has_sym,
)

MISSING = object()


DEBUG = False


class _Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<unconstrained {self.why}>"


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PyExc(Exception):
    """a Python exception raised by the interpreted program."""

    def __init__(self, exc: PObj):
        self.exc = exc

    @property
    def cls(self):
        return self.exc.cls


class Impure(Exception):
    pass


class Frame(Mut):
    def __init__(self, ctx, glob, parent=None, cls=None, name="", sink=None):
        self.vars: Dict[str, Any] = {}
        self.glob = glob
        self.parent = parent
        self.cls = cls
        self.name = name
        self.sink = sink
        self.fn = None
        self.first_arg = None
        self.nonlocals: set = set()
        ctx.alloc(self)


class Closure:
    """a function value with source."""

    def __init__(self, node, glob, parent, cls, name, defaults, kwdefaults, native=None):
        self.node, self.glob, self.parent = node, glob, parent
        self.cls, self.name = cls, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.native = native

    def __repr__(self):
        return f"<fn {self.name}>"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Model:
    """a callable implemented by the verifier: fn(I, args, kwargs)."""

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name


class SuperProxy:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class GenObj:
    """suspended generator: `run(sink)` executes the body, feeding yields."""

    def __init__(self, run, name=""):
        self.run, self.done, self.name = run, False, name


class IterObj(Mut):
    """iterator over a sequence of segments with a position."""

    busy = False  # its elements are handed out by a loop, or lost with one that was left

    def __init__(self, ctx, segs):
        self.segs = list(segs)
        ctx.alloc(self)


class Drain(Exception):
    """an iteration begins with taking an element of a symbolic block"""

    def __init__(self, it):
        self.it = it


class Comp:
    """lazy comprehension over one symbolic block."""

    def __init__(self, blk, key, elt, cond, kvar):
        self.blk, self.key, self.elt, self.cond, self.kvar = blk, key, elt, cond, kvar


class BlackHole:
    """logging objects: every use is a no-op (trusted to have no effect)."""

    def __repr__(self):
        return "<blackhole>"


BLACKHOLE = BlackHole()


class Sink:
    def __init__(self, emit, extend):
        self.emit, self.extend = emit, extend


# --------------------------------------------------------------------------
# source access

_file_cache: Dict[str, Tuple[ast.Module, Dict[int, Tuple[ast.AST, Optional[str]]]]] = {}


def _index(filename):
    if filename in _file_cache:
        return _file_cache[filename]
    with open(filename) as fh:
        tree = ast.parse(fh.read())
    idx: Dict[int, List] = {}

    def walk(node, cls):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                idx.setdefault(first, []).append((ch, cls))
                walk(ch, cls)
            elif isinstance(ch, ast.Lambda):
                idx.setdefault(ch.lineno, []).append((ch, cls))
                walk(ch, cls)
            elif isinstance(ch, ast.ClassDef):
                walk(ch, ch.name)
            else:
                walk(ch, cls)

    walk(tree, None)
    _file_cache[filename] = (tree, idx)
    return _file_cache[filename]


def fn_node(f):
    code = f.__code__
    _, idx = _index(code.co_filename)
    cands = idx.get(code.co_firstlineno, [])
    want = "<lambda>" if f.__name__ == "<lambda>" else code.co_name
    cands = [(n, cls) for n, cls in cands if ("<lambda>" if isinstance(n, ast.Lambda) else n.name) == want]
    if len(cands) > 1 and want == "<lambda>":
        names = code.co_varnames[: code.co_argcount + code.co_kwonlyargcount]
        cands = [(n, cls) for n, cls in cands if tuple(a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs) == names]
    if len(cands) > 1:
        # several lambdas on a line: the one whose body the instructions come from
        at = [p for p in code.co_positions() if None not in p and p[3] > 0]
        at = {(p[0], p[2]) for p in at} | {(p[1], p[3]) for p in at}
        cands = [(n, cls) for n, cls in cands if at and (n.body.lineno, n.body.col_offset) == min(at) and (n.body.end_lineno, n.body.end_col_offset) == max(at)]
    if len(cands) == 1:
        return cands[0]
    raise Unsupported(f"no source for {f}")


def is_gen(node):
    if isinstance(node, ast.Lambda):
        return False

    def has(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(ch, (ast.Yield, ast.YieldFrom)):
                return True
            if has(ch):
                return True
        return False

    r = getattr(node, "_pyvc_gen", None)
    if r is None:
        r = node._pyvc_gen = has(node)
    return r


def assigned_names(nodes):
    out = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.Assign,)):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if getattr(n, "value", None) is not None:
                tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                if it.optional_vars is not None:
                    tgt(it.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        elif isinstance(n, ast.Lambda):
            return
        for ch in ast.iter_child_nodes(n):
            walk(ch)

    for n in nodes:
        walk(n)
    return out


# --------------------------------------------------------------------------
# loop bookkeeping


def counter(body, name):
    """is the variable increased by one at the top level of the body?"""
    for s in body if isinstance(body, list) else ():
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
            return isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and s.value.value == 1
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
            v = s.value
            return isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and any(isinstance(x, ast.Constant) and x.value == 1 for x in (v.left, v.right)) and any(isinstance(x, ast.Name) and x.id == name for x in (v.left, v.right))
    return False


class LoopInfo:
    def __init__(self):
        self.mods: Dict[Tuple, Any] = {}  # loc -> list of remaining candidates
        self.rounds: Dict[Tuple, int] = {}
        self.stopped_inv: Dict[str, bool] = {}
        self.maps: Dict[Tuple, MapCand] = {}  # loc -> the list grows by one function of the element


class MapCand:
    """invariant candidate of a list: its value on entry, followed by elt(j)
    for the indices j so far with cond(j)"""

    def __init__(self, cond, elt, kv, tries):
        self.cond, self.elt, self.kv, self.tries = cond, elt, kv, tries


class LoopCtx:
    def __init__(self, serial0, info, key, entry):
        self.serial0, self.info, self.key, self.entry = serial0, info, key, entry


class Fold:
    """recursive definition over a sequence (see vspec.base)"""

    def __init__(self, name, shape: Dict[str, Any], init, step, env=(), indexed=False, keys=()):
        self.indexed, self.keys = indexed, keys
        self.name, self.shape, self.init, self.step = name, shape, init, step
        self.env = tuple(env)  # extra arguments handed to init and step


class Interp:
    def __init__(self, ctx: Path, env):
        self.ctx = ctx
        self.env = env  # verify.Env: contracts, models, policy
        self.depth = 0
        self.folds: Dict[Any, List[Fold]] = {}
        self.fold_final: Dict[Tuple, Any] = {}
        self.fold_stop: Dict[Tuple, Any] = {}
        self.in_while = 0
        self.nwrites, self.drain = 0, None
        self.elems: Dict[str, Any] = {}  # the current elements of the loops
        self.keys_ok = set()  # definitions whose invariants of keys are proved where the loop is
        self.exc_stack: List[PyExc] = []
        self.pure = 0
        self.effects = PList(ctx, [])  # trace of calls into the world (files, documents, processes)

    # ---------------------------------------------------------------- utils
    def effect(self, *what):
        if self.pure:
            raise Impure()
        self.on_write(self.effects, "segs")
        self.effects.segs = self.effects.segs + [Unit(tuple(what))]

    def exc(self, cls, *args):
        o = PObj(self.ctx, cls)
        o.attrs["args"] = tuple(args)
        return PyExc(o)

    def resolve(self, v):
        while isinstance(v, SUnion):
            r = self.ctx.union_res.get(v.key, MISSING)
            if r is MISSING:
                n = len(v.alts)
                for j in range(n - 1):
                    if self.ctx.branch(v.tag == j):
                        break
                else:
                    j = n - 1
                    self.ctx.assume(v.tag == j)
                r = self.union_alt(v, j)
                self.ctx.union_res[v.key] = r
            v = r
        if isinstance(v, _Poison):
            raise Unsupported(f"value of {v.why} after/inside the loop is not captured by an invariant")
        if self.env.small and isinstance(v, (PList, IterObj)) and not self.pure:
            v.segs = self.few(v.segs)
        return v

    def few(self, segs):
        """sequences of a few elements only (looks for counter-examples, proves nothing)"""
        if not self.env.small or all(isinstance(s, Unit) for s in segs):
            return segs
        out = []
        for s in segs:
            if not isinstance(s, Blk):
                out.append(s)
                continue
            n = as_int_term(s.n)
            for k in range(self.env.small):
                if self.ctx.branch(n == k):
                    break
            else:
                k = self.env.small
                self.ctx.assume(n == k)
                if not self.ctx.feasible():
                    raise Infeasible()
            out += [Unit(s.at(self.ctx, j)) for j in range(k)]
        return out

    def union_alt(self, v, j):
        k = (v.key, j)
        r = self.ctx.union_alt.get(k, MISSING)
        if r is MISSING:
            r = self.ctx.union_alt[k] = v.alts[j]()
        return r

    def unresolved(self, v):
        return isinstance(v, SUnion) and v.key not in self.ctx.union_res

    def union_goal(self, a, b):
        """`a is b` as one condition, without forking, or None."""
        ctx = self.ctx
        pc = len(ctx.pc)
        ctx.no_branch += 1
        try:
            if not self.unresolved(a):
                a, b = b, a
            cs = []
            if self.unresolved(b) and a.shapes is not None and a.shapes == b.shapes:
                cs.append(a.tag == b.tag)
                for j in range(len(a.alts)):
                    g = self.goals(self.union_alt(a, j), self.union_alt(b, j))
                    c = self.conj([c for _, c in g])
                    if c is not True:
                        cs.append(z3.Implies(a.tag == j, z3.BoolVal(False) if c is False else c))
                return self.conj(cs)
            for j in range(len(a.alts)):
                g = self.goals(self.union_alt(a, j), b)
                c = self.conj([c for _, c in g])
                if c is not True:
                    cs.append(z3.Implies(a.tag == j, z3.BoolVal(False) if c is False else c))
            return self.conj(cs)
        except (NoBranch, Unsupported):
            return None
        finally:
            ctx.no_branch -= 1

    def truth(self, v) -> bool:
        v = self.resolve(v)
        c = self.truth_cond(v)
        return self.ctx.branch(c) if not isinstance(c, bool) else c

    def truth_cond(self, v):
        v = self.resolve(v)
        if v is None:
            return False
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            return v.t != self.ctx.lit("")
        if isinstance(v, PList):
            return self.len_term(v) != 0 if not v.is_concrete() else bool(v.segs)
        if isinstance(v, PDict):
            if v.base is None and not v.maybe:
                return bool(v.entries)
            if any(k not in v.maybe for k, _ in v.entries if not _has_sym(k)):
                return True
            raise Unsupported("truth of a symbolic dict")
        if isinstance(v, PSet):
            if v.base is None:
                return bool(v.adds)
            raise Unsupported("truth of a symbolic set")
        if isinstance(v, PObj):
            f = self.class_attr(v.cls, "__bool__")
            if f is not MISSING:
                return self.truth_cond(self.call(Bound(f, v), [], {}))
            f = self.class_attr(v.cls, "__len__")
            if f is not MISSING and v.cls.__module__ != "builtins":
                return self.truth_cond(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, SOpq):
            m = self.env.opq_truth.get(v.tag)
            if m is not None:
                return m(self, v)
            return True
        if isinstance(v, (Closure, Bound, Model, GenObj, BlackHole)):
            return True
        if isinstance(v, Comp):
            return True
        return bool(v)

    def len_term(self, v):
        n = 0
        for s in v.segs:
            n = n + (1 if isinstance(s, Unit) else s.n)
        return simp(n) if not isinstance(n, int) else n

    # ------------------------------------------------------------- writes
    def on_write(self, obj, field):
        ctx = self.ctx
        self.nwrites += 1
        if getattr(obj, "foreign", False):
            raise Unsupported(f"write to an element of a symbolic structure ({obj!r})")
        if self.pure and obj.serial < self.pure_serial:
            raise Impure()
        if obj.serial < self.env.frame_serial and not isinstance(obj, Frame):
            if (obj.serial, field) not in ctx.frame_ok and obj.serial not in ctx.frame_ok:
                ctx.frame_writes.append((obj.serial, field))
        for lp in ctx.loops:
            if obj.serial < lp.serial0:
                loc = (obj.serial, field)
                if loc not in lp.info.mods:
                    lp.info.mods[loc] = None
                    if ctx.pending_restart is None or len(lp.entry) < len(ctx.pending_restart):
                        ctx.pending_restart = lp.entry
        if ctx.pending_restart is not None:
            raise Restart(ctx.pending_restart)

    # -------------------------------------------------------------- names
    def lookup(self, frame, name):
        f = frame
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, _Poison):
                    raise Unsupported(f"variable {v.why} is not captured by a loop invariant")
                return v
            f = f.parent
        if name in frame.glob:
            return self.lift_global(frame.glob[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise self.exc(NameError, name)

    def lift_global(self, v):
        return self.env.natives.get(id(v), v)

    def store(self, frame, name, v):
        f = frame
        if name in frame.nonlocals:
            f = frame.parent
            while f is not None and name not in f.vars:
                f = f.parent
            if f is None:
                raise Unsupported("global store")
        self.on_write(f, name)
        f.vars[name] = v

    def mangle(self, frame, name):
        if name.startswith("__") and not name.endswith("__"):
            f = frame
            while f is not None:
                if f.cls:
                    return f"_{f.cls.lstrip('_')}{name}"
                f = f.parent
        return name

    # --------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, fr)

    def s_Expr(self, s, fr):
        self.expr(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise ReturnEx(None if s.value is None else self.expr(s.value, fr))

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Assign(self, s, fr):
        v = self.expr(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(fr, t.id)
            self.store(fr, t.id, self.augop(s.op, cur, self.expr(s.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, fr)
            nm = self.mangle(fr, t.attr)
            cur = self.getattr(o, nm)
            self.setattr(o, nm, self.augop(s.op, cur, self.expr(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, fr)
            k = self.expr(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, cur, self.expr(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, cur, v):
        cur = self.resolve(cur)
        if isinstance(cur, PList) and isinstance(op, ast.Add):
            self.list_extend(cur, v)
            return cur
        if isinstance(cur, PSet) and isinstance(op, ast.BitOr):
            self.on_write(cur, "set")
            vs = self.resolve(v)
            for x in (vs.adds if isinstance(vs, PSet) else self.to_items(vs)):
                cur.adds = cur.adds + [x]
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, fr), self.mangle(fr, t.attr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.expr(t.value, fr), self.expr(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.resolve(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                segs = self.segs_of(v)
                if segs is None:
                    raise Unsupported("starred assignment")
                l, k, n = PList(self.ctx, list(segs)), stars[0], len(t.elts) - 1
                from . import models

                enough = self.compare(ast.GtE(), models.b_len(self, l), n)
                if not (enough if isinstance(enough, bool) else self.ctx.branch(enough)):
                    raise self.exc(ValueError, "unpack")
                after = n - k
                items = [self.getitem(l, i) for i in range(k)] + [self.getslice(l, k, -after if after else None, None)] + [self.getitem(l, i - after) for i in range(after)]
                for e, x in zip(t.elts, items):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, PList):
            if v.is_concrete():
                items = v.items()
            else:
                ln = self.len_term(v)
                if not self.ctx.branch(as_int_term(ln) == n):
                    raise self.exc(ValueError, "unpack")
                return [self.list_get(v, i) for i in range(n)]
        elif isinstance(v, list):
            items = v
        else:
            items = self.to_items(v)
        if len(items) != n:
            raise self.exc(ValueError, "unpack")
        return items

    def s_If(self, s, fr):
        if self.truth(self.expr(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.expr(s.test, fr)):
            raise self.exc(AssertionError, *([self.expr(s.msg, fr)] if s.msg is not None else []))

    def s_Raise(self, s, fr):
        if s.exc is None:
            if not self.exc_stack:
                raise self.exc(RuntimeError, "no active exception")
            raise self.exc_stack[-1]
        v = self.expr(s.exc, fr)
        v = self.resolve(v)
        if isinstance(v, type):
            v = self.call(v, [], {})
        if isinstance(v, PObj):
            raise PyExc(v)
        raise Unsupported(f"raise {v!r}")

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e, self.expr(h.type, fr)):
                        if h.name:
                            self.store(fr, h.name, e.exc)
                        self.exc_stack.append(e)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def exc_matches(self, e, t):
        t = self.resolve(t)
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        ec = e.exc.cls
        if isinstance(ec, type):
            return issubclass(ec, t)
        raise Unsupported("exception class")

    def s_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    s_AsyncWith = s_With

    def with_items(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        cm = self.resolve(self.expr(it.context_expr, fr))
        if isinstance(cm, BlackHole):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, BLACKHOLE, fr)
            self.with_items(items[1:], body, fr)
            return
        v = self.call(self.getattr(cm, "__enter__"), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self.with_items(items[1:], body, fr)
        except PyExc as e:
            self.exc_stack.append(e)
            try:
                r = self.call(self.getattr(cm, "__exit__"), [e.exc.cls, e.exc, None], {})
            finally:
                self.exc_stack.pop()
            if not self.truth(r):
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
            raise
        else:
            self.call(self.getattr(cm, "__exit__"), [None, None, None], {})

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported("decorated local function")
        self.store(fr, s.name, self.make_closure(s, fr, s.name))

    s_AsyncFunctionDef = s_FunctionDef

    def make_closure(self, node, fr, name):
        a = node.args
        defaults = [self.expr(d, fr) for d in a.defaults]
        kwd = {k.arg: self.expr(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Closure(node, fr.glob, fr, None, name, defaults, kwd)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.on_write(fr, t.id)
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.expr(t.value, fr), self.expr(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, fr)
                self.on_write(o, t.attr)
                o.attrs.pop(self.mangle(fr, t.attr), None)
            else:
                raise Unsupported("del")

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Import(self, s, fr):
        raise Unsupported("local import")

    def s_ImportFrom(self, s, fr):
        import importlib

        m = importlib.import_module(s.module)
        for a in s.names:
            self.store(fr, a.asname or a.name, getattr(m, a.name))

    def while_blk(self, F):
        """the iterations of a loop as a sequence: as many as the recursive definition makes"""
        sk, terms = self.flatten(list(F.env))
        a = Atom(f"while:{F.name}{sk}", terms, at=lambda ctx, i: SInt(i))
        b = Blk(a, z3.IntVal(0), a.length(self.ctx))
        b.folds = [F]
        return b

    def goes_on(self, F, st):
        return self.truth(self.call(F.cond, list(F.env) + [self.copy_state(st)], {}))

    def while_rule(self, s, fr, F):
        """the loop runs in step with the definition F: as long as F.cond holds of the state"""
        blk = self.while_blk(F)
        early = []

        def body(k):
            st, _ = self.fold_state(F, blk, k.t)
            if not self.goes_on(F, st):
                raise Infeasible()
            if not self.truth(self.expr(s.test, fr)):
                early.append(1)
                raise BreakEx()
            try:
                self.block(s.body, fr)
            except ContinueEx:
                pass

        self.in_while += 1
        try:
            self.loop_blk(blk, body, s, fr)
            st, stop = self.fold_final[self.fold_ident(F, blk)]
            if stop is True or stop is not False and self.truth(stop):
                raise Unsupported("the definition of a loop stops where the loop does not")
            if self.goes_on(F, st):
                raise Infeasible()
            if not self.truth(self.expr(s.test, fr)):
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except ContinueEx:
                pass
            self.ctx.prove(f"{fr.name}: the loop ends where {F.name} ends", False, "another iteration is executed")
            raise PathEnd()
        except BreakEx:
            if early:
                self.block(s.orelse, fr)
        finally:
            self.in_while -= 1

    def loop_value(self, F):
        if self.env.small:
            st, stop, n = self.call(F.init, list(F.env), {}), False, 0
            while not stop and self.goes_on(F, st):
                r = self.resolve(self.call(F.step, list(F.env) + [self.copy_state(st)], {}))
                st, stop = (r[1], True) if isinstance(r, tuple) else (r, False)
                n += 1
                if n > 2 * self.env.small + 2:
                    raise Infeasible()
            st = self.copy_state(st)
            st.entries.append(["stopped", stop])
            return st
        blk = self.while_blk(F)
        ident = self.fold_ident(F, blk)
        known = ident in self.fold_final
        st, stop = self.fold_value2(F, PList(self.ctx, [blk]))
        if not known and not (stop is True or stop is not False and self.truth(stop)) and self.goes_on(F, st):
            raise Infeasible()
        st = self.copy_state(st)
        st.entries.append(["stopped", stop])
        return st

    def s_While(self, s, fr):
        if not self.env.spec_side and self.in_while < len(self.env.loops) and not self.env.small:
            self.loop_frame = fr
            return self.while_rule(s, fr, self.env.loops[self.in_while]())
        n = 0
        ended = []

        def iteration():
            if not self.truth(self.expr(s.test, fr)):
                ended.append(1)
                raise BreakEx()
            try:
                self.block(s.body, fr)
            except ContinueEx:
                pass

        while True:
            saved, self.drain = self.drain, (self.nwrites, len(self.ctx.loops), fr)
            try:
                iteration()
            except BreakEx:
                if ended:
                    self.block(s.orelse, fr)
                return
            except Drain as d:
                self.drain = None
                try:
                    self.drained(d.it, iteration, s, fr)
                except BreakEx:
                    if ended:
                        self.block(s.orelse, fr)
                    return
                continue
            finally:
                self.drain = saved
            n += 1
            if self.env.small and n > 2 * self.env.small + 2:
                raise Infeasible()
            if n > self.env.max_unroll:
                raise Unsupported("while loop without a decreasing concrete bound")

    def drained(self, it, iteration, s, fr):
        """one iteration for each element of the block an iterator is at"""
        def body(v):
            it.forced = [v]
            iteration()
            if it.forced:
                raise Unsupported("an iteration which takes no element")

        segs, it.busy = it.segs, True
        self.each_segs([segs[0]], body, s, fr)
        it.busy = False
        self.on_write(it, "segs")
        it.segs = segs[1:]

    def s_For(self, s, fr):
        it = self.resolve(self.expr(s.iter, fr))

        def body(v):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except ContinueEx:
                pass

        try:
            self.each(it, body, s, fr)
        except BreakEx:
            return
        self.block(s.orelse, fr)

    s_AsyncFor = s_For

    # -------------------------------------------------------- iteration
    def segs_of(self, v):
        """segments of an eager sequence, or None."""
        v = self.resolve(v)
        if isinstance(v, PList):
            return v.segs
        if isinstance(v, (tuple, list, frozenset, set, range)):
            return [Unit(x) for x in v]
        if isinstance(v, dict):
            return [Unit(x) for x in v]
        if isinstance(v, str):
            return [Unit(c) for c in v]
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return [Unit(m) for m in v]
        if isinstance(v, PDict):
            return self.dict_segs(v, "keys")
        if isinstance(v, PSet):
            if v.base is None and not _has_sym(tuple(v.adds)):
                return [Unit(x) for x in v.adds]
            if v.of is not None and v.base is not None and not v.adds:  # in some order, which is that of this set
                a = Atom("elements:" + v.base[0], tuple(v.base[1]), shape=v.of)
                return [Blk(a, z3.IntVal(0), a.length(self.ctx))]
            raise Unsupported("iteration over a symbolic set")
        if isinstance(v, IterObj):
            if v.busy:
                raise Unsupported("an iterator within a loop over it")
            self.on_write(v, "segs")
            sg = v.segs
            v.segs = []
            return sg
        if isinstance(v, SOpq):
            m = self.env.opq_iter.get(v.tag)
            if m is not None:
                return self.few(m(self, v))
        if isinstance(v, Comp):
            return [Blk(self.comp_atom(v), z3.IntVal(0), self.comp_len(v))]
        return None

    def map_items(self, base, what="items"):
        """the items of a symbolic dict, in their order"""
        return Atom(f"{what}:{base.name}", base.args, shape={"items": T.Tuple((base.keyshape, base.shape)), "keys": base.keyshape, "values": base.shape}[what])

    def dict_segs(self, d, what):
        out = []
        if d.base is not None:
            if not isinstance(d.base, MapAtom) or d.maybe:
                raise Unsupported("iteration over a symbolic dict")
            for k, _ in d.entries:
                if self.ctx.branch(self.map_has(d.base, k)):
                    raise Unsupported("iteration over a symbolic dict with a replaced item")
            a = self.map_items(d.base, what)
            out.append(Blk(a, z3.IntVal(0), a.length(self.ctx)))
        for k, v in d.entries:
            if not _has_sym(k) and k in d.maybe:
                if not self.ctx.branch(d.maybe[k]):
                    continue
            out.append(Unit({"keys": k, "values": v, "items": (k, v)}[what]))
        return out

    def each(self, it, body, node=None, fr=None):
        it = self.resolve(it)
        if isinstance(it, GenObj):
            if it.done:
                return None
            it.done = True
            return it.run(Sink(body, lambda segs: self.each_segs(segs, body, node, fr)))
        if isinstance(it, PList):
            # python iterates the live list; a body that grows its own list
            # would be missed by a snapshot
            snap = list(it.segs)
            self.each_segs(snap, body, node, fr)
            if len(it.segs) != len(snap) or any(a is not b for a, b in zip(it.segs, snap)):
                raise Unsupported("list modified while iterated")
            return None
        if isinstance(it, IterObj):
            while it.segs or it.busy:
                if it.busy:
                    raise Unsupported("an iterator within a loop over it")
                self.on_write(it, "segs")
                s, it.segs = it.segs[0], it.segs[1:]
                it.busy = not isinstance(s, Unit)
                self.each_segs([s], body, node, fr)
                it.busy = False
            return None
        segs = self.segs_of(it)
        if segs is None:
            if isinstance(it, PObj):
                f = self.class_attr(it.cls, "__iter__")
                if f is not MISSING:
                    return self.each(self.call(Bound(f, it), [], {}), body, node, fr)
            raise Unsupported(f"cannot iterate {it!r}")
        self.each_segs(segs, body, node, fr)
        return None

    def each_segs(self, segs, body, node, fr):
        for s in list(self.few(segs)):
            if isinstance(s, Unit):
                body(s.v)
                continue
            c = getattr(s.atom, "comp", None) if isinstance(s, Blk) else None
            if c is not None and not self.env.spec_side and not s.rev and not c.blk.rev and not self.folds_for(s)[0] and self.folds_for(c.blk)[0] \
                    and s.lo is not None and self.ctx.entails(z3.And(as_int_term(s.lo) == 0, as_int_term(s.hi) == self.comp_len(c))):
                # the elements of a comprehension one by one: a loop over what it ranges over
                def each_of(elem, i, c=c):
                    if self.ctx.branch(z3.substitute(c.cond, (c.kvar, i))):
                        body(self.subst_val(c.elt, c.kvar, i))

                each_of.indexed = True
                self.loop_blk(c.blk, each_of, node, fr)
                continue
            self.loop_blk(s, body, node, fr)

    def to_items(self, v):
        segs = self.segs_of(v)
        if segs is None and isinstance(self.resolve(v), GenObj):
            out = PList(self.ctx)
            self.gen_into(self.resolve(v), out)
            segs = out.segs
        if segs is None or not all(isinstance(s, Unit) for s in segs):
            raise Unsupported(f"need a sequence of known length: {v!r}")
        return [s.v for s in segs]

    def gen_into(self, g, out: PList):
        if g.done:
            return
        g.done = True

        def emit(v):
            self.on_write(out, "segs")
            out.segs = out.segs + [Unit(v)]

        def extend(segs):
            self.on_write(out, "segs")
            out.segs = out.segs + list(segs)

        g.run(Sink(emit, extend))

    # ---------------------------------------------------------- loop cut
    def folds_for(self, blk):
        """the definitions which describe a loop over blk, and the sequence they are about"""
        base = self.counted(blk)
        fs = getattr(blk, "folds", None) or self.folds.get((base.atom.key, base.rev), [])
        if not fs and not self.env.spec_side and not blk.rev:
            from . import models

            for same in (True, False):
                for name, make in self.env.fold_rules:
                    if blk.atom.name == name if same else base.atom.name == name.removeprefix("enum[0]:"):
                        if name.startswith("enum[0]:"):
                            b = blk if blk is not base else models.enum_blk(self, base, 0)
                            fs = [self.canonical(make(b), b)[0]]
                        else:
                            fs = [make(base)]
                fs = [f for f in fs if f is not None]
                if fs:
                    break
        return fs, base

    def counted(self, blk):
        """the sequence itself, if blk enumerates one"""
        if blk.atom.name.startswith("enum[0]:") and not blk.rev:
            return Blk(blk.atom.base, blk.lo, blk.hi)
        return blk

    def canonical(self, F, blk):
        """a definition over the pairs of an enumeration is one over the sequence, with the index"""
        b = self.counted(blk)
        if b is blk:
            return F, blk
        return Fold(F.name, F.shape, F.init, Model(lambda I, a, k: I.call(F.step, list(a[:-2]) + [(a[-2], a[-1])], k)), F.env, True, F.keys), b

    def fold_ident(self, F, blk):
        F, blk = self.canonical(F, blk)
        return (F.name, tuple(self.flat_key(e) for e in F.env), blk.atom.key, blk.rev)

    def fold_state(self, F, blk, idx):
        """the state of F after consuming the first idx elements of blk's atom."""
        ctx = self.ctx
        F, blk = self.canonical(F, blk)
        ident = self.fold_ident(F, blk)
        if isinstance(idx, int) or z3.is_int_value(simp(as_int_term(idx)) if not isinstance(idx, int) else z3.IntVal(idx)):
            k = idx if isinstance(idx, int) else simp(idx)
            if k == 0:
                st = PDict(ctx)
                ini = self.call(F.init, list(F.env), {})
                return ini, False
            if k <= 3:
                st, stop = self.fold_state(F, blk, k - 1)
                return self.fold_step(F, st, stop, self.blk_at(blk, z3.IntVal(k - 1)), k - 1)
        idx = as_int_term(idx)
        skel, terms = self.flatten(list(F.env))
        args = list(blk.atom.args) + terms + [idx]
        sorts = [a.sort() for a in args]
        nm = f"fold:{F.name}{skel}@{blk.atom.name}{'~' if blk.rev else ''}"
        st = PDict(ctx)
        for c, sh in F.shape.items():
            if isinstance(sh, T.List):
                at = Atom(f"{nm}.{c}", args, shape=sh.elem)
                l = PList(ctx, [Blk(at, z3.IntVal(0), at.length(ctx))])
                st.entries.append([c, l])
            elif isinstance(sh, T.Set):
                st.entries.append([c, PSet(ctx, base=(f"{nm}.{c}", tuple(args)))])
            else:
                def leaf(suf, so, c=c):
                    return ufn(f"{nm}.{c}{suf}", *sorts, so)(*args)
                st.entries.append([c, build(ctx, sh, leaf, f"{nm}.{c}")])
        if ident in self.keys_ok:
            for c, inv in F.keys.items():
                self.state_get(st, c).base.inv = functools.partial(inv, self, list(F.env), idx)
        stop = SBool(ufn(nm + ".stop", *sorts, BoolS)(*args))
        return st, stop

    # what the states of a definition look like is itself inductive: every state conforms to the declared shape
    def subshape(self, a, b):
        if a == b or a == T.nat and b == T.int:
            return True
        if isinstance(a, T.Union):
            return all(self.subshape(x, b) for x in a.alts)
        if isinstance(b, T.Union):
            return any(self.subshape(a, x) for x in b.alts)
        if isinstance(a, T.Const):
            return self.conforms(a.v, b)
        if isinstance(a, T.Opq) and isinstance(b, T.Opq):
            return (a.tag == b.tag or (b.tag, a.tag) in self.env.opq_built) and b.kind in (None, a.kind)
        if isinstance(a, T.List) and isinstance(b, T.List):
            return self.subshape(a.elem, b.elem)
        if isinstance(a, T.Tuple) and isinstance(b, T.Tuple):
            return len(a.elems) == len(b.elems) and all(self.subshape(x, y) for x, y in zip(a.elems, b.elems))
        if isinstance(a, T.Map) and isinstance(b, T.Map):
            return self.subshape(a.val, b.val) and self.subshape(a.key or T.str, b.key or T.str)
        if isinstance(a, T.Rec) and isinstance(b, T.Rec):
            ka, kb = {k: (s, o) for k, s, o in a.keys}, {k: (s, o) for k, s, o in b.keys}
            return all(k in kb and self.subshape(s, kb[k][0]) and (not o or kb[k][1]) for k, (s, o) in ka.items()) and all(o or k in ka for k, (s, o) in kb.items())
        if isinstance(a, T.Obj) and isinstance(b, T.Obj):
            kb = dict(b.attrs)
            return a.cls is b.cls and all(k in dict(a.attrs) and self.subshape(dict(a.attrs)[k], s) for k, s in kb.items())
        if isinstance(a, T.Obj) and isinstance(b, T.Opq):
            return self.env.opq_class.get(b.tag) is None
        return False

    def conforms(self, v, sh):
        if isinstance(v, SUnion):
            if v.shapes is not None:
                if all(self.subshape(s, sh) for s in v.shapes):
                    return True
            v = self.resolve(v)
        if isinstance(v, Comp):
            v = PList(self.ctx, [Blk(self.comp_atom(v), z3.IntVal(0), self.comp_len(v))])
        if isinstance(sh, T.Union):
            return any(self.conforms(v, a) for a in sh.alts)
        if isinstance(sh, T.Const):
            return v is sh.v or type(v) is type(sh.v) and v == sh.v
        if isinstance(sh, T.Prim):
            if sh.kind == "none":
                return v is None
            if sh.kind == "nat":
                return self.conforms(v, T.int) and (v >= 0 if isinstance(v, int) else self.ctx.entails(v.t >= 0))
            return isinstance(v, {"bool": (bool, SBool), "int": (int, SInt), "str": (str, SStr)}[sh.kind]) and not (sh.kind == "int" and isinstance(v, bool))
        if isinstance(sh, T.Opq):
            if isinstance(v, SOpq):
                return (v.tag == sh.tag or (sh.tag, v.tag) in self.env.opq_built) and (sh.kind is None or v.kind == sh.kind or bool(self.env.of_kind(v, sh.kind)))
            if isinstance(v, PObj) and (sh.tag, v.cls.__name__) in self.env.opq_built:
                return sh.kind is None
            return isinstance(v, PObj) and self.env.opq_class.get(sh.tag) is None  # stands for an object nobody looks into
        if isinstance(sh, T.List):
            if isinstance(v, (list, tuple)):
                v = self.lift(list(v))
            if not isinstance(v, PList):
                return False
            for s in v.segs:
                if isinstance(s, Unit):
                    if not self.conforms(s.v, sh.elem):
                        return False
                elif isinstance(s, Blk):
                    if s.atom.shape is not None and self.subshape(s.atom.shape, sh.elem):
                        continue
                    if not self.conforms(s.atom.at(self.ctx, self.ctx.fresh_int("any")), sh.elem):
                        return False
                else:
                    return False
            return True
        if isinstance(sh, T.Tuple):
            return isinstance(v, tuple) and len(v) == len(sh.elems) and all(self.conforms(x, s) for x, s in zip(v, sh.elems))
        if isinstance(sh, T.Set):
            return isinstance(v, PSet) or isinstance(v, (set, frozenset))
        if isinstance(sh, T.Rec):
            if isinstance(v, dict):
                v = self.lift(v)
            if not isinstance(v, PDict) or v.base is not None:
                return False
            got = {k: x for k, x in v.entries if isinstance(k, str)}
            want = {k: (s, o) for k, s, o in sh.keys}
            return len(got) == len(v.entries) and all(k in want and self.conforms(x, want[k][0]) for k, x in got.items()) and all(
                o or k in got and (k not in v.maybe or self.ctx.entails(v.maybe[k])) for k, (s, o) in want.items())
        if isinstance(sh, T.Map):
            if isinstance(v, dict):
                v = self.lift(v)
            if not isinstance(v, PDict):
                return False
            b = v.base
            if b is not None:
                if isinstance(b, Layered):
                    return self.conforms(b.under, sh) and self.conforms(b.over, sh)
                if not isinstance(b, MapAtom) or not self.subshape(b.shape, sh.val):
                    return False
            return all(self.conforms(x, sh.val) for _, x in v.entries)
        if isinstance(sh, T.Obj):
            return isinstance(v, PObj) and v.cls is sh.cls and all(k in v.attrs and self.conforms(v.attrs[k], s) for k, s in sh.attrs)
        return False

    def check_state(self, F, st):
        self.ctx.ex.folds_checked.add(F.name)
        for c, sh in F.shape.items():
            v = self.state_get(st, c)
            if not self.conforms(v, sh):
                if DEBUG:
                    print("SHAPE", F.name, c, [(s.v if isinstance(s, Unit) else (s.atom.name[:40], s.atom.shape)) for s in v.segs if not isinstance(s, Unit) or not self.conforms(s.v, sh.elem)] if isinstance(v, PList) else [(x, str(y)[:80]) for x, y in v.entries], sh)
                self.ctx.prove(f"the states of {F.name} have the declared shape: {c}", False, lambda: repr(v)[:300])

    def blk_at(self, blk, i):
        """element number i in iteration order, counted on the whole atom."""
        if blk.rev:
            n = blk.atom.length(self.ctx)
            return blk.atom.at(self.ctx, simp(n - 1 - i))
        return blk.atom.at(self.ctx, i)

    def fold_step(self, F, st, stop, elem, idx):
        if stop is not False and self.truth(stop):
            return st, True
        st2 = self.copy_state(st)
        ix = [idx if isinstance(idx, int) else SInt(idx)] if F.indexed else []
        r = self.call(F.step, list(F.env) + [st2] + ix + ([] if getattr(F, "cond", None) else [elem]), {})
        stop2 = False
        r = self.resolve(r)
        if isinstance(r, tuple) and len(r) == 2 and r[0] == "STOP":
            stop2, r = True, r[1]
        return r, stop2

    def copy_state(self, st):
        out = PDict(self.ctx)
        for k, v in st.entries:
            if isinstance(v, PList):
                v = PList(self.ctx, list(v.segs))
            elif isinstance(v, PSet):
                v = PSet(self.ctx, v.base, list(v.adds))
            elif isinstance(v, PDict):
                v = self.copy_dict(v)
            out.entries.append([k, v])
        return out

    def copy_dict(self, d):
        n = PDict(self.ctx, [list(e) for e in d.entries], d.base, dict(d.maybe))
        return n

    def get_loc(self, loc):
        obj = self.ctx.objs[loc[0]]
        f = loc[1]
        if isinstance(obj, Frame):
            return obj.vars.get(f, MISSING)
        if isinstance(obj, PObj):
            return obj.attrs.get(f, MISSING)
        return obj

    def set_loc(self, loc, v):
        """v: component value of a ghost state, or a poison"""
        ctx = self.ctx
        obj = ctx.objs[loc[0]]
        f = loc[1]
        if isinstance(v, PList) and not isinstance(obj, PList):
            v = PList(ctx, list(v.segs))
        elif isinstance(v, PSet) and not isinstance(obj, PSet):
            v = PSet(ctx, v.base, list(v.adds))
        elif isinstance(v, PDict) and not isinstance(obj, PDict) and not v.foreign:
            v = self.copy_dict(v)
        if isinstance(obj, Frame):
            if v is MISSING:
                obj.vars.pop(f, None)
            else:
                obj.vars[f] = v
        elif isinstance(obj, PObj):
            obj.attrs[f] = v
        elif isinstance(obj, PList):
            obj.segs = list(v.segs) if isinstance(v, PList) else [_PoisonSeg(loc)]
        elif isinstance(obj, PSet):
            if isinstance(v, PSet):
                obj.base, obj.adds = v.base, list(v.adds)
            else:
                raise Unsupported(f"set modified in a loop without invariant: {obj!r}")
        elif isinstance(obj, PDict):
            if isinstance(v, PDict):
                obj.base, obj.entries, obj.maybe = v.base, [list(e) for e in v.entries], dict(v.maybe)
            else:
                raise Unsupported(f"dict modified in a loop without invariant: {obj!r}")
        elif isinstance(obj, IterObj):
            raise Unsupported("iterator advanced inside the loop")
        else:
            raise Unsupported(f"modified object {obj!r}")

    def shape_ok(self, cur, sh):
        if isinstance(cur, SUnion) or cur is MISSING:
            return True
        if isinstance(sh, T.List):
            return isinstance(cur, PList)
        if isinstance(sh, T.Set):
            return isinstance(cur, PSet)
        if isinstance(sh, T.Map):
            return isinstance(cur, PDict)
        if isinstance(sh, T.Union):
            return any(self.shape_ok(cur, a) for a in sh.alts)
        if isinstance(sh, T.Rec):
            return isinstance(cur, PDict)
        if isinstance(sh, T.Tuple):
            return isinstance(cur, tuple)
        if isinstance(sh, T.Prim):
            k = sh.kind
            if k == "none":
                return cur is None
            if k == "bool":
                return isinstance(cur, (bool, SBool))
            if k in ("int", "nat"):
                return isinstance(cur, (int, SInt)) and not isinstance(cur, bool)
            if k == "str":
                return isinstance(cur, (str, SStr))
        if isinstance(sh, T.Opq):
            return isinstance(cur, SOpq) and cur.tag == sh.tag
        return True

    def loop_blk(self, blk, body, node, fr):
        ctx = self.ctx
        if isinstance(blk, _PoisonSeg):
            raise Unsupported("sequence not captured by a loop invariant")
        if self.pure:
            raise Impure()
        lo, hi = blk.lo, blk.hi
        # iteration order index runs lo..hi on the (possibly reversed) atom
        if blk.rev:
            n_at = blk.atom.length(ctx)
            ilo, ihi = simp(n_at - hi), simp(n_at - lo)
        else:
            ilo, ihi = simp(as_int_term(lo)), simp(as_int_term(hi))
        if fr is not None and not self.env.spec_side:
            self.loop_frame = fr
        folds, base = self.folds_for(blk)
        if self.env.peel and blk is not None and not getattr(blk, "peeled", False):
            return self.loop_peeled(blk, ilo, ihi, folds, body, node, fr)
        entry = tuple(ctx.decisions)
        pos = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), type(node).__name__, len(ctx.loops))
        key = (entry, pos)
        c = ctx.choose(3)
        if c == 2:
            ctx.assume(as_int_term(ilo) >= as_int_term(ihi))
            if not ctx.feasible():
                raise Infeasible()
            for F in folds:
                ident = self.fold_ident(F, base)
                if isinstance(ilo, int) and ilo <= 3:
                    st, stop = self.fold_state(F, base, ilo)
                    self.fold_final[ident] = (st, stop)
            return
        ctx.assume(as_int_term(ilo) < as_int_term(ihi))
        if not ctx.feasible():
            raise Infeasible()
        info = ctx.ex.loopinfo.get(key)
        if info is None:
            info = ctx.ex.loopinfo[key] = LoopInfo()
            if node is not None and fr is not None and hasattr(node, "body"):
                names = assigned_names(node.body + ([ast.Expr(value=node.test)] if isinstance(node, ast.While) else []) + ([ast.Assign(targets=[node.target], value=ast.Constant(value=0))] if hasattr(node, "target") else []))
                for nm in sorted(names):
                    f = fr
                    if nm in fr.nonlocals:
                        f = fr.parent
                        while f is not None and nm not in f.vars:
                            f = f.parent
                    info.mods[(f.serial, nm)] = None
        for F in folds:
            if F.keys:
                self.keys_ok.add(self.fold_ident(F, base))
        g_lo = [self.fold_state(F, base, ilo) for F in folds]
        if c == 0:
            for F, g in zip(folds, g_lo):
                self.check_state(F, g[0])
        for F, g in zip(folds, g_lo):
            if F.keys and c == 0:
                if ilo != 0:
                    raise Unsupported("invariant of keys: the loop starts elsewhere")
                self.prove_keys(F, g[0], z3.IntVal(0))
        # candidates
        comps = []
        for fi, F in enumerate(folds):
            for cn, sh in F.shape.items():
                comps.append((fi, cn, sh))
        for loc in list(info.mods):
            if info.mods[loc] is None:
                cur = self.get_loc(loc)
                cands = []
                if cur is not MISSING and not isinstance(cur, _Poison):
                    for fi, cn, sh in comps:
                        if self.shape_ok(cur, sh):
                            cands.append((fi, cn))
                    lname = loc[1] if isinstance(loc[1], str) else ""
                    cands.sort(key=lambda x: (x[1] != lname,))
                    if DEBUG: print("CAND", loc, cur, [(x, self.state_get(g_lo[x[0]][0], x[1]), self.same_silent(cur, self.state_get(g_lo[x[0]][0], x[1]))) for x in cands], pos, ctx.decisions)
                    cands = [x for x in cands if self.same_silent(cur, self.state_get(g_lo[x[0]][0], x[1]))]
                    if isinstance(cur, (int, SInt)) and node is not None and counter(getattr(node, "body", ()), lname):
                        cands.append(("count", None))
                    cands.append(("const", None))
                    if isinstance(cur, (int, SInt)) and not isinstance(cur, bool):
                        cands.append(("any", "int"))  # some integer, nothing else is known
                info.mods[loc] = cands
        entry_vals = {loc: self.snapshot(self.get_loc(loc), ctx.objs[loc[0]]) for loc in info.mods}
        for F in folds:
            info.stopped_inv.setdefault(F.name, True)
        label = f"{fr.name if fr is not None else ''}:loop@{pos[0]}"
        for loc, cands in info.mods.items():
            if cands and cands[0][0] == "any":
                continue
            if cands and cands[0][0] == "map":
                ctx.prove(f"{label}:invariant {self.loc_name(loc)} grows element by element, holds on entry", True)
            elif cands and cands[0][0] not in ("const", "count"):
                ctx.prove(f"{label}:invariant {self.loc_name(loc)}=={folds[cands[0][0]].name}.{cands[0][1]} holds on entry", True)
        loop = LoopCtx(ctx.tick(), info, key, entry)
        i = ctx.fresh_int("i") if c == 0 else as_int_term(ihi)
        if c == 0:
            ctx.assume(z3.And(i >= ilo, i < ihi))
        g_i = []
        for F in folds:
            st, stop = self.fold_state(F, base, i)
            if info.stopped_inv[F.name]:
                ctx.assume(z3.Not(stop.t))
                stop = False
            g_i.append((st, stop))
        def value_of(cand, states, loc, idx=None):
            if cand[0] == "map":
                return self.map_value(info.maps[loc], blk, entry_vals[loc], ilo, idx)
            if cand[0] == "any":
                return SInt(ctx.fresh_int("any"))
            if cand[0] == "count":
                return SInt(simp_t(self.int_term(entry_vals[loc]) + as_int_term(idx) - as_int_term(ilo)))
            return entry_vals[loc] if cand[0] == "const" else self.state_get(states[cand[0]][0], cand[1])

        def active(cands):
            """candidates that are assumed together (Houdini): all for
            scalars, only the first for collections."""
            def coll(x):
                return x[0] == "map" or x[0] not in ("const", "any", "count") and self.is_coll(dict(folds[x[0]].shape)[x[1]])
            if not cands or any(coll(x) for x in cands):
                return cands[:1]
            return [x for x in cands if x[0] not in ("const", "any", "count")] or cands[:1]

        for loc, cands in info.mods.items():
            act = active(cands)
            if not act:
                self.set_loc(loc, _Poison(self.loc_name(loc)))
                continue
            if act[0][0] == "const":
                continue
            v0 = value_of(act[0], g_i, loc, i)
            self.set_loc(loc, v0)
            for x in act[1:]:
                for _, cnd in self.goals(v0, value_of(x, g_i, loc, i)):
                    ctx.assume(cnd)
        if c == 1:
            for F, g in zip(folds, g_i):
                self.fold_final[self.fold_ident(F, base)] = g
            return
        ctx.loops.append(loop)
        elem = self.blk_at(blk, i)
        self.elems[base.atom.name] = self.blk_at(base, i)

        def ghost():
            ctx.loops.pop()
            nxt = []
            for F, (st, stop) in zip(folds, g_i):
                st2, stop2 = self.fold_step(F, st, stop, self.blk_at(base, i), i)
                nxt.append((st2, stop2))
                self.check_state(F, st2)
                if F.keys:
                    self.prove_keys(F, st2, simp_t(i + 1))
                if stop2 is True:
                    self.fold_final[self.fold_ident(F, base)] = (st2, True)
            return nxt

        mark, fresh = len(ctx.branch_conds), dict(ctx._fresh)
        try:
            body(elem, i) if getattr(body, "indexed", False) else body(elem)
        except (BreakEx, ReturnEx, PyExc):
            ghost()
            raise
        here, fresh = list(ctx.branch_conds[mark:]), fresh == ctx._fresh
        nxt = ghost()
        for F, (st2, stop2) in zip(folds, nxt):
            if info.stopped_inv[F.name] and stop2 is not False:
                if not ctx.feasible():
                    raise Infeasible()
                info.stopped_inv[F.name] = False
                raise Restart(entry)
        for loc, cands in info.mods.items():
            for x in active(cands):
                cur = self.get_loc(loc)
                if x[0] == "map":
                    if not self.map_kept(info.maps[loc], blk, entry_vals[loc], ilo, i, cur):
                        if not ctx.feasible():
                            raise Infeasible()
                        m = self.map_derive(info.maps[loc], i, cur, value_of(x, nxt, loc, i), here) if fresh else None
                        if m is None:
                            info.mods[loc] = []
                            ctx.ex.dropped[(label, self.loc_name(loc), "map")] = (repr(cur)[:2000] if DEBUG else "", "", tuple(ctx.decisions), None)
                        info.maps[loc] = m
                        raise Restart(entry)
                    ctx.prove(f"{label}:invariant {self.loc_name(loc)} grows element by element, preserved", True)
                    continue
                if x[0] == "any":
                    cur = self.resolve(cur) if isinstance(cur, SUnion) else cur
                    if isinstance(cur, (int, SInt)) and not isinstance(cur, bool):
                        continue
                    info.mods[loc] = []
                    raise Restart(entry)
                want = value_of(x, nxt, loc, simp_t(i + 1))
                if isinstance(cur, _Poison) or not self.same_silent(cur, want):
                    if not ctx.feasible():
                        raise Infeasible()
                    info.mods[loc] = [y for y in cands if y != x]
                    if x[0] == "const" and fresh and not blk.rev and loc not in info.maps and isinstance(cur, PList):
                        m = self.map_derive(None, i, cur, entry_vals[loc], here)
                        if m is not None:
                            info.maps[loc] = m
                            info.mods[loc] = [("map", None)]
                    if x[0] == "const" and isinstance(cur, (int, SInt)) and not isinstance(cur, bool) and isinstance(entry_vals[loc], (int, SInt)):
                        if ctx.entails(self.int_term(cur) == self.int_term(entry_vals[loc]) + 1):  # it counts the iterations
                            info.mods[loc] = [("count", None), ("any", "int")]
                    ctx.ex.dropped[(label, self.loc_name(loc), str(x))] = (repr(cur)[:2000], repr(want)[:2000], tuple(ctx.decisions), [str(c)[:200] for c in ctx.pc[-40:]]) if DEBUG else ("", "", (), None)
                    raise Restart(entry)
                if x[0] != "const":
                    what = "counts the iterations," if x[0] == "count" else f"=={folds[x[0]].name}.{x[1]}"
                    ctx.prove(f"{label}:invariant {self.loc_name(loc)}{what} preserved", True)
        raise PathEnd()

    def map_value(self, m, blk, entry, lo, hi):
        if z3.is_true(m.cond) and isinstance(m.elt, Sym):
            base = blk.atom.at(self.ctx, m.kv)
            if isinstance(base, Sym) and base.t.eq(m.elt.t):
                return PList(self.ctx, list(entry.segs) + [Blk(blk.atom, lo, hi)])
        sk, ts = self.flatten(m.elt)
        b = Blk(blk.atom, lo, hi)
        c = Comp(b, (blk.atom.key, tkey(as_int_term(lo)), tkey(as_int_term(hi)), False, sk, tuple(tkey(t) for t in ts), tkey(m.cond)), m.elt, m.cond, m.kv)
        return PList(self.ctx, list(entry.segs) + [Blk(self.comp_atom(c), z3.IntVal(0), self.comp_len(c))])

    def map_kept(self, m, blk, entry, lo, i, cur):
        """cur is the list for lo..i, followed by elt(i) exactly if cond(i)"""
        pre = self.map_value(m, blk, entry, lo, i)
        if not isinstance(cur, PList) or len(cur.segs) < len(pre.segs):
            return False
        if not self.same_silent(PList(self.ctx, cur.segs[: len(pre.segs)]), pre):
            return False
        rest = cur.segs[len(pre.segs):]
        c = z3.substitute(m.cond, (m.kv, i))
        if not rest:
            return self.ctx.entails(z3.Not(c))
        if len(rest) > 1 or not isinstance(rest[0], Unit) or not self.ctx.entails(c):
            return False
        return self.same_silent(rest[0].v, self.subst_val(m.elt, m.kv, i))

    def map_derive(self, old, i, cur, before, conds):
        """candidate from one execution of the body, for an arbitrary index i"""
        n = len(before.segs) if isinstance(before, PList) else -1
        if n < 0 or not isinstance(cur, PList) or len(cur.segs) != n + 1 or not isinstance(cur.segs[n], Unit) or not z3.is_const(i):
            return None
        kv = z3.Int(f"kappa{self.pure}")
        try:
            v = self.subst_val(self.lift(cur.segs[n].v), i, kv)
            c = z3.simplify(z3.substitute(z3.And(*conds) if conds else z3.BoolVal(True), (i, kv)))
            if old is None:
                return MapCand(c, v, kv, 0)
            if old.tries > 8:
                return None
            return MapCand(z3.simplify(z3.Or(old.cond, c)), self.ite(c, v, old.elt), kv, old.tries + 1)
        except Unsupported:
            return None

    def loop_peeled(self, blk, ilo, ihi, folds, body, node, fr):
        """execute the first iteration separately, then cut the rest."""
        ctx = self.ctx
        base = self.counted(blk)
        if ctx.branch(as_int_term(ilo) >= as_int_term(ihi)):
            for F in folds:
                if isinstance(ilo, int) and ilo <= 3:
                    self.fold_final[self.fold_ident(F, base)] = self.fold_state(F, base, ilo)
            return
        elem = self.blk_at(blk, as_int_term(ilo))
        self.elems[base.atom.name] = self.blk_at(base, as_int_term(ilo))
        nxt = simp(as_int_term(ilo) + 1)

        def ghost(final):
            for F in folds:
                st, stop = self.fold_state(F, base, ilo)
                st2, stop2 = self.fold_step(F, st, stop, self.blk_at(base, as_int_term(ilo)), ilo)
                if final or stop2 is True:
                    self.fold_final[self.fold_ident(F, base)] = (st2, stop2)

        try:
            body(elem)
        except (BreakEx, ReturnEx, PyExc):
            ghost(True)
            raise
        if blk.rev:
            rest = Blk(blk.atom, blk.lo, simp(as_int_term(blk.hi) - 1), True)
        else:
            rest = Blk(blk.atom, simp(as_int_term(blk.lo) + 1), blk.hi)
        rest.peeled = True
        rest.folds = folds
        self.loop_blk(rest, body, node, fr)

    def is_coll(self, sh):
        if isinstance(sh, T.Union):
            return any(self.is_coll(a) for a in sh.alts)
        return isinstance(sh, (T.List, T.Set, T.Map))

    def snapshot(self, v, obj):
        """value of a location for later comparison (objects that are the
        location themselves are copied)."""
        if v is obj:
            if isinstance(v, PList):
                return PList(self.ctx, list(v.segs))
            if isinstance(v, PSet):
                return PSet(self.ctx, v.base, list(v.adds))
            if isinstance(v, PDict):
                return self.copy_dict(v)
        return v

    def loc_name(self, loc):
        o = self.ctx.objs[loc[0]]
        if isinstance(o, Frame):
            return str(loc[1])
        return f"{type(o).__name__}.{loc[1]}"

    def state_get(self, st, c):
        for k, v in st.entries:
            if k == c:
                return v
        raise Unsupported(f"fold state has no component {c}")

    def fold_value(self, F, lst):
        """value of fold(F, lst) used by specifications."""
        st, stop = self.fold_value2(F, lst)
        st = self.copy_state(st)
        st.entries.append(["stopped", stop])
        return st

    def fold_value2(self, F, lst):
        lst = self.resolve(lst)
        segs = self.norm_segs(self.few(self.segs_of(lst)))
        if len(segs) == 0:
            return self.call(F.init, list(F.env), {}), False
        if len(segs) == 1 and isinstance(segs[0], Blk):
            F, blk = self.canonical(F, segs[0])
            ident = self.fold_ident(F, blk)
            n_at = blk.atom.length(self.ctx)
            full = self.ctx.entails(z3.And(as_int_term(blk.lo) == 0, as_int_term(blk.hi) == n_at))
            if full:
                if ident in self.fold_final:
                    return self.fold_final[ident]
                self.ctx.ex.folds_used.add(F.name)
                return self.fold_state(F, Blk(blk.atom, 0, n_at, blk.rev), n_at)
            raise Unsupported("fold over a slice")
        st, stop = self.call(F.init, list(F.env), {}), False
        for ix, s in enumerate(segs):
            if not isinstance(s, Unit):
                raise Unsupported("fold over a mixed sequence")
            st, stop = self.fold_step(F, st, stop, s.v, ix)
        return st, stop

    # --------------------------------------------------------- equality
    def flatten(self, v):
        """(skeleton string, [z3 terms]) of a value, for use as ufn argument."""
        terms: List[Any] = []

        def go(x):
            x = self.resolve(x)
            if isinstance(x, SStr) or isinstance(x, SInt) or isinstance(x, SBool) or isinstance(x, SOpq):
                terms.append(x.t)
                return {"SStr": "s", "SInt": "i", "SBool": "b"}.get(type(x).__name__, "o")
            if isinstance(x, str):
                terms.append(self.ctx.lit(x))
                return "s"
            if isinstance(x, bool) or x is None:
                return repr(x)
            if isinstance(x, int):
                terms.append(z3.IntVal(x))
                return "i"
            if isinstance(x, (tuple, list)):
                return "(" + ",".join(go(e) for e in x) + ")"
            if isinstance(x, PList):
                out = []
                for s in x.segs:
                    if isinstance(s, Unit):
                        out.append(go(s.v))
                    else:
                        if not hasattr(s, "atom"):
                            raise Unsupported("sequence not captured by a loop invariant")
                        terms.extend(s.atom.args)
                        terms.extend([as_int_term(s.lo), as_int_term(s.hi)])
                        out.append(f"*{s.atom.name}{'~' if s.rev else ''}")
                return "[" + ",".join(out) + "]"
            if isinstance(x, PDict):
                if isinstance(x.base, (MapAtom, Layered)) and not x.maybe:
                    terms.extend(x.base.args)
                    return "{*" + x.base.name + "".join(f",{go(k)}:{go(v)}" for k, v in x.entries) + "}"
                if x.base is not None:
                    raise Unsupported("flatten symbolic dict")
                return "{" + ",".join(f"{go(s.v[0])}:{go(s.v[1])}" for s in self.dict_segs(x, "items")) + "}"
            if isinstance(x, PSet):
                if x.base is not None:
                    terms.extend(x.base[1])
                return "{*" + (x.base[0] if x.base is not None else "") + "".join("," + go(k) for k in x.adds) + "}"
            if isinstance(x, PObj):
                key = self.env.obj_key(self, x)
                if key is not None:
                    return go(key)
                dp = getattr(x.cls, "__dataclass_params__", None)
                if dp is not None and dp.frozen and dp.eq and "__hash__" in x.cls.__dict__:
                    fs = [f.name for f in dataclasses.fields(x.cls) if f.compare]
                    if all(n in x.attrs for n in fs):
                        return x.cls.__name__ + "(" + ",".join(go(x.attrs[n]) for n in fs) + ")"
                return f"obj{x.serial}"
            if isinstance(x, enum.Enum):
                return str(x)
            if isinstance(x, type):
                return x.__qualname__
            if isinstance(x, (Bound, Closure, Model)):
                return getattr(x, "name", "bound")
            if isinstance(x, re.Pattern):
                return "re:" + x.pattern
            raise Unsupported(f"flatten {x!r}")

        return go(v), terms

    def flat_key(self, v):
        sk, ts = self.flatten(v)
        return sk + "|" + "|".join(tkey(t) for t in ts)

    def eq(self, a, b):
        """Python `==` as a condition (bool or z3)."""
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return True
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.streq(a, b)
        num = (SInt, SBool, int, bool)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                ta = a.t if isinstance(a, SBool) else z3.BoolVal(a)
                tb = b.t if isinstance(b, SBool) else z3.BoolVal(b)
                return ta == tb
            return self.int_term(a) == self.int_term(b)
        if isinstance(a, SOpq) and isinstance(b, SOpq):
            if a.tag != b.tag:
                return False
            return a.t == b.t
        if isinstance(a, SOpq) or isinstance(b, SOpq):
            x, y = (a, b) if isinstance(a, SOpq) else (b, a)
            if y is None or isinstance(y, (str, int, SStr, SInt, SBool)):
                return False
            cls = self.env.opq_class.get(x.tag)
            if not isinstance(cls, type) or issubclass(y.cls if isinstance(y, PObj) and isinstance(y.cls, type) else type(y), cls):
                raise Unsupported(f"{x!r} == {y!r}")
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, list):
            a = self.lift(a)
        if isinstance(b, list):
            b = self.lift(b)
        if isinstance(a, PList) and isinstance(b, PList):
            if a.is_concrete() and b.is_concrete():
                if len(a.segs) != len(b.segs):
                    return False
                return self.conj([self.eq(x, y) for x, y in zip(a.items(), b.items())])
            if not a.segs or not b.segs:
                return as_int_term(self.len_term(a)) == as_int_term(self.len_term(b))
            if self.flat_key(a) == self.flat_key(b):
                return True
            raise Unsupported("== on symbolic lists")
        if isinstance(a, dict):
            a = self.lift(a)
        if isinstance(b, dict):
            b = self.lift(b)
        if isinstance(a, PDict) and isinstance(b, PDict):
            if a.base is None and b.base is None and a.concrete_keys() and b.concrete_keys():
                conds = []
                ka = {k: v for k, v in a.entries}
                kb = {k: v for k, v in b.entries}
                for k in list(ka) + [k for k in kb if k not in ka]:
                    pa = a.maybe.get(k, True) if k in ka else False
                    pb = b.maybe.get(k, True) if k in kb else False
                    if pa is False or pb is False:
                        other = pb if pa is False else pa
                        conds.append(z3.Not(other) if not isinstance(other, bool) else not other)
                        continue
                    if pa is not True or pb is not True:
                        ta = pa if not isinstance(pa, bool) else z3.BoolVal(pa)
                        tb = pb if not isinstance(pb, bool) else z3.BoolVal(pb)
                        conds.append(ta == tb)
                        e = self.eq(ka[k], kb[k])
                        conds.append(z3.Implies(ta, e if not isinstance(e, bool) else z3.BoolVal(e)))
                        continue
                    conds.append(self.eq(ka[k], kb[k]))
                return self.conj(conds)
            for x, y in ((a, b), (b, a)):
                if isinstance(x.base, MapAtom) and not x.entries and not x.maybe and y.base is None and not y.entries:
                    return self.map_items(x.base).length(self.ctx) == 0
            raise Unsupported("== on symbolic dicts")
        if isinstance(a, PSet) and isinstance(b, PSet):
            if a.base is not None and a.base == b.base and not a.adds and not b.adds:
                return True
            if a.base is None and b.base is None and not a.adds and not b.adds:
                return True
            raise Unsupported("== on sets")
        if isinstance(a, PObj) or isinstance(b, PObj):
            if not isinstance(a, PObj):
                a, b = b, a
            f = self.class_attr(a.cls, "__eq__")
            if f is not MISSING and isinstance(f, types.FunctionType):
                if dataclasses.is_dataclass(a.cls) and not self.env.interpretable(f):
                    if not isinstance(b, PObj) or b.cls is not a.cls:
                        return False
                    fs = [x.name for x in dataclasses.fields(a.cls) if x.compare]
                    return self.conj([self.eq(a.attrs.get(n), b.attrs.get(n)) for n in fs])
                return self.truth_cond(self.call(Bound(f, a), [b], {}))
            return False
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.self_ is b.self_ and a.fn is b.fn
        if isinstance(a, Mut) or isinstance(b, Mut):
            return False
        try:
            return bool(a == b)
        except Unsupported:
            raise
        except Exception:
            raise Unsupported(f"== on {a!r} {b!r}")

    def streq(self, a, b):
        pa, pb = self.parts(a), self.parts(b)
        if len(pa) > 1 and len(pb) > 1 and len(pa) == len(pb):
            ok, conds = True, []
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        ok = False
                elif isinstance(x, str) or isinstance(y, str):
                    ok = False
                elif x.sort() != y.sort():
                    ok = False
                else:
                    conds.append(x == y)
            if ok and all(z3.is_true(z3.simplify(c)) for c in conds):
                return True
        # cancellation: x + a == x + b exactly if a == b
        same = lambda x, y: x == y if isinstance(x, str) and isinstance(y, str) else not isinstance(x, str) and not isinstance(y, str) and x.eq(y)
        n = 0
        while n < min(len(pa), len(pb)) and same(pa[n], pb[n]):
            n += 1
        m = 0
        while m < min(len(pa), len(pb)) - n and same(pa[len(pa) - 1 - m], pb[len(pb) - 1 - m]):
            m += 1
        if n + m:
            text = lambda ps: "".join(ps) if not ps else self.concat([x if isinstance(x, str) else SStr(x) for x in ps])
            a, b = text(pa[n: len(pa) - m]), text(pb[n: len(pb) - m])
            if isinstance(a, str) and isinstance(b, str):
                return a == b
        return self.ctx.sterm(a) == self.ctx.sterm(b)

    def parts(self, a):
        if isinstance(a, str):
            return [a]
        return a.parts or [a.t]

    def conj(self, cs):
        out = []
        for c in cs:
            if c is True:
                continue
            if c is False:
                return False
            out.append(c)
        if not out:
            return True
        return out[0] if len(out) == 1 else z3.And(*out)

    def disj(self, cs):
        out = []
        for c in cs:
            if c is False:
                continue
            if c is True:
                return True
            out.append(c)
        if not out:
            return False
        return out[0] if len(out) == 1 else z3.Or(*out)

    # deep comparison for obligations ------------------------------------
    def goals(self, a, b, where="", out=None, ordered=False):
        """list of (where, condition) that together say a is b (deeply)."""
        if out is None:
            out = []
        if isinstance(a, SUnion) and isinstance(b, SUnion) and a.key == b.key:
            return out
        if self.unresolved(a) or self.unresolved(b):
            c = self.union_goal(a, b)
            if c is not None:
                out.append((where, c))
                return out
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return out
        if isinstance(a, (list, dict)):
            a = self.lift(a)
        if isinstance(b, (list, dict)):
            b = self.lift(b)
        if isinstance(a, Comp):
            a = PList(self.ctx, self.segs_of(a))
        if isinstance(b, Comp):
            b = PList(self.ctx, self.segs_of(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                out.append((where + ".len", False))
                return out
            for j, (x, y) in enumerate(zip(a, b)):
                self.goals(x, y, f"{where}[{j}]", out)
            return out
        if isinstance(a, PList) and isinstance(b, PList):
            self.goals_list(a, b, where, out)
            return out
        if isinstance(a, PSet) and isinstance(b, PSet):
            # sufficient: the same set, the same elements added to it
            if len(a.adds) != len(b.adds) or (a.base is None) != (b.base is None) or a.base is not None and a.base[0] != b.base[0]:
                raise Unsupported(f"{where}: comparison of sets")
            for x, y in zip(a.base[1], b.base[1]) if a.base else ():
                out.append((where + ".base", x == y))
            for x, y in zip(a.adds, b.adds):
                self.goals(x, y, where + ".element", out)
            return out
        if isinstance(a, PDict) and isinstance(b, PDict):
            if a.base is not None or b.base is not None:
                if a.base is not None and b.base is not None and a.base.key == b.base.key and len(a.entries) == len(b.entries):
                    for (k1, v1), (k2, v2) in zip(a.entries, b.entries):
                        self.goals(k1, k2, where + ".key", out)
                        self.goals(v1, v2, where + ".val", out)
                    return out
                out.append((where, False))
                return out
            if a.concrete_keys() and b.concrete_keys():
                ka = {k: v for k, v in a.entries}
                kb = {k: v for k, v in b.entries}
                ign = self.env.ignore_keys
                for k in list(ka) + [k for k in kb if k not in ka]:
                    if k in ign:
                        continue
                    if k in a.maybe and k in b.maybe and a.maybe[k].eq(b.maybe[k]) and ka[k] is not kb[k]:
                        sub = []
                        try:
                            self.goals(ka[k], kb[k], f"{where}.{k}", sub)
                            same = all(c is True or (c is not False and z3.is_true(z3.simplify(c))) for _, c in sub)
                        except Unsupported:
                            same = False
                        if same:
                            continue
                    pa = k in ka and (self.ctx.branch(a.maybe[k]) if k in a.maybe else True)
                    pb = k in kb and (self.ctx.branch(b.maybe[k]) if k in b.maybe else True)
                    if not pa and not pb:
                        continue
                    if pa != pb:
                        out.append((f"{where}.{k} present", False))
                        continue
                    self.goals(ka[k], kb[k], f"{where}.{k}", out)
                if ordered:
                    if list(ka) != list(kb):
                        out.append((where + ".key order", False))
                return out
            ea = [s.v for s in self.dict_segs(a, "items")]
            eb = [s.v for s in self.dict_segs(b, "items")]
            if len(ea) != len(eb):
                out.append((where + ".len", False))
                return out
            for (k1, v1), (k2, v2) in zip(ea, eb):
                self.goals(k1, k2, where + ".key", out)
                self.goals(v1, v2, where + ".val", out)
            return out
        if isinstance(a, PObj) and isinstance(b, PObj):
            if a.cls is not b.cls:
                out.append((where + ".class", False))
                return out
            if isinstance(a.cls, type) and issubclass(a.cls, BaseException):
                return out
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                if k in self.env.ignore_keys:
                    continue
                if k not in a.attrs or k not in b.attrs:
                    out.append((f"{where}.{k} present", False))
                    continue
                self.goals(a.attrs[k], b.attrs[k], f"{where}.{k}", out)
            return out
        if isinstance(a, GenObj) or isinstance(b, GenObj):
            raise Unsupported("comparison of generators")
        if isinstance(a, Model) and isinstance(b, Model) and a.name and a.name == b.name:
            return out
        # bool / int must not be confused
        if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)):
            out.append((where + ".type", False))
            return out
        out.append((where, self.eq(a, b)))
        return out

    def norm_segs(self, segs):
        out = []
        for s in segs:
            if isinstance(s, Blk):
                if self.ctx.entails(as_int_term(s.n) == 0):
                    continue
                if out and isinstance(out[-1], Blk) and out[-1].atom.key == s.atom.key and out[-1].rev == s.rev:
                    p = out[-1]
                    if not s.rev and self.ctx.entails(as_int_term(p.hi) == as_int_term(s.lo)):
                        out[-1] = Blk(s.atom, p.lo, s.hi)
                        continue
            elif isinstance(s, _PoisonSeg):
                raise Unsupported("list not captured by a loop invariant")
            out.append(s)
        return out

    def goals_list(self, a, b, where, out):
        sa, sb = self.norm_segs(a.segs), self.norm_segs(b.segs)
        if len(sa) != len(sb) or any(isinstance(x, Unit) != isinstance(y, Unit) for x, y in zip(sa, sb)):
            sa, sb = self.align(sa, sb)
        if len(sa) != len(sb):
            out.append((f"{where}: different number of elements/blocks ({self.show_segs(sa)} / {self.show_segs(sb)})", False))
            return
        for j, (x, y) in enumerate(zip(sa, sb)):
            w = f"{where}[{j}]"
            if isinstance(x, Unit) and isinstance(y, Unit):
                self.goals(x.v, y.v, w, out)
            elif isinstance(x, Blk) and isinstance(y, Blk):
                if x.atom.name == y.atom.name and x.rev == y.rev and len(x.atom.args) == len(y.atom.args):
                    for p, q in zip(x.atom.args, y.atom.args):
                        out.append((w + ".arg", p == q if p.sort() == q.sort() else False))
                    out.append((w + ".lo", as_int_term(x.lo) == as_int_term(y.lo)))
                    out.append((w + ".hi", as_int_term(x.hi) == as_int_term(y.hi)))
                elif isinstance(x.atom, CompAtom) and isinstance(y.atom, CompAtom):
                    self.goals_comp(x, y, w, out)
                else:
                    # extensional: same length, same element everywhere
                    out.append((w + ".length", as_int_term(x.n) == as_int_term(y.n)))
                    # fork on emptiness, so that the assumption about the
                    # arbitrary index k constrains nothing but k
                    if not self.ctx.branch(as_int_term(x.n) > 0):
                        continue
                    k = self.ctx.fresh_int("k")
                    self.ctx.assume(z3.And(k >= 0, k < x.n))
                    self.goals(x.at(self.ctx, k), y.at(self.ctx, k), w + "[k]", out)
            else:
                out.append((f"{w}: element against block", False))

    def align(self, sa, sb):
        """the same sequences, a block split where an element stands against it"""
        sa, sb, oa, ob = list(sa), list(sb), [], []
        while sa and sb:
            x, y = sa[0], sb[0]
            if isinstance(x, Unit) == isinstance(y, Unit):
                oa.append(sa.pop(0))
                ob.append(sb.pop(0))
                continue
            q, o, u = (sa, oa, sb) if isinstance(x, Blk) else (sb, ob, sa)
            b = q[0]
            if isinstance(b.atom, CompAtom) or not self.ctx.entails(as_int_term(b.n) > 0):
                break
            q[0:1] = [Unit(b.at(self.ctx, z3.IntVal(0))), Blk(b.atom, b.lo, simp(b.hi - 1), True) if b.rev else Blk(b.atom, simp(b.lo + 1), b.hi)]
            q[:] = [q[0]] + self.norm_segs(q[1:])
        return oa + sa, ob + sb

    def goals_comp(self, x, y, w, out):
        cx, cy = x.atom.comp, y.atom.comp
        if cx.key == cy.key:
            return
        if cx.blk.rev or cy.blk.rev:
            if cx.blk.atom.key != cy.blk.atom.key or cx.blk.rev != cy.blk.rev:
                out.append((w + ": comprehensions over different sequences", False))
                return
        lx, hx, ly, hy = (as_int_term(t) for t in (cx.blk.lo, cx.blk.hi, cy.blk.lo, cy.blk.hi))
        if cx.blk.atom.key == cy.blk.atom.key:
            out.append((w + ".lo", lx == ly))
            out.append((w + ".hi", hx == hy))
        else:
            out.append((w + ".length", hx - lx == hy - ly))
        if not self.ctx.branch(lx < hx):
            return
        k = self.ctx.fresh_int("k")
        self.ctx.assume(z3.And(k >= lx, k < hx))
        ky = k if cx.blk.atom.key == cy.blk.atom.key else simp_t(k - lx + ly)
        c1 = z3.substitute(cx.cond, (cx.kvar, k))
        c2 = z3.substitute(cy.cond, (cy.kvar, ky))
        out.append((w + ": filter condition", c1 == c2))
        if self.ctx.branch(c1):
            self.goals(self.subst_val(cx.elt, cx.kvar, k), self.subst_val(cy.elt, cy.kvar, ky), w + "[k]", out)

    def show_segs(self, sg):
        return "[" + ", ".join("1" if isinstance(s, Unit) else f"*{s.atom.name[:40]}" for s in sg) + "]"

    def same_silent(self, a, b):
        try:
            g = self.goals(a, b)
        except Unsupported:
            return False
        for _, c in g:
            if c is True:
                continue
            if c is False:
                return not self.ctx.feasible()
            if not self.ctx.entails(c):
                return False
        return True

    # -------------------------------------------------------- expressions
    def expr(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(fr, e.id)

    def e_NamedExpr(self, e, fr):
        v = self.expr(e.value, fr)
        f = fr
        while f.name == "<comp>":
            f = f.parent
        self.store(f, e.target.id, v)
        return v

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_items(self.expr(x.value, fr)))
            else:
                out.append(self.expr(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        l = PList(self.ctx)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.list_extend(l, self.expr(x.value, fr))
            else:
                l.segs = l.segs + [Unit(self.expr(x, fr))]
        return l

    def e_Set(self, e, fr):
        vals = [self.expr(x, fr) for x in e.elts]
        return PSet(self.ctx, adds=vals)

    def e_Dict(self, e, fr):
        d = PDict(self.ctx)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.expr(v, fr))
            else:
                kk = self.expr(k, fr)
                self.dict_set(d, kk, self.expr(v, fr))
        return d

    def dict_update(self, d, src):
        src = self.resolve(src)
        if isinstance(src, dict):
            src = self.lift(src)
        if not isinstance(src, PDict):
            raise Unsupported("dict merge of a symbolic dict")
        if not d.entries and not d.maybe and d.base is None and src.base is not None:
            self.on_write(d, "dict")
            d.base, d.entries, d.maybe = src.base, [list(x) for x in src.entries], dict(src.maybe)
            return
        if src.base is not None:
            self.on_write(d, "dict")
            d.base, d.entries, d.maybe = Layered(self, self.copy_dict(d), self.copy_dict(src)), [], {}
            return
        if not d.entries and not d.maybe and d.base is None:
            d.entries = [list(x) for x in src.entries]
            d.maybe = dict(src.maybe)
            return
        for s in self.dict_segs(src, "items"):
            self.dict_set(d, s.v[0], s.v[1])

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.resolve(self.expr(v.value, fr))
                if v.format_spec is not None:
                    raise Unsupported("format spec")
                if v.conversion == 114:
                    parts.append(self.repr_of(x))
                else:
                    parts.append(self.str_of(x))
        return self.concat(parts)

    def str_of(self, x):
        x = self.resolve(x)
        if isinstance(x, (str, SStr)):
            return x
        if isinstance(x, SInt):
            t = ufn("str_of_int", IntS, StrS)(x.t)
            s = self.ctx.mkstr(t)
            self.ctx.axiom_once(("soi", tkey(t)), z3.And(
                ufn("int_of", StrS, IntS)(t) == x.t, ufn("isint", StrS, BoolS)(t), t != self.ctx.lit("")))
            return SStr(t, [t])
        if isinstance(x, SBool):
            return "True" if self.ctx.branch(x.t) else "False"
        if isinstance(x, SOpq):
            m = self.env.opq_attr.get((x.tag, "__str__"))
            if m is not None:
                return m(self, x)
            return self.ctx.mkstr(ufn(f"str:{x.tag}", ObjS, StrS)(x.t))
        if isinstance(x, PObj):
            f = self.class_attr(x.cls, "__str__")
            if isinstance(f, types.FunctionType) and self.env.interpretable(f):
                return self.call(Bound(f, x), [], {})
            return self.ctx.mkstr(z3.Const(clean(f"str:obj{x.serial}"), StrS))
        if isinstance(x, (Mut, Closure, Bound, Model, GenObj, BlackHole)) or _has_sym(x):
            sk, ts = "", []
            try:
                sk, ts = self.flatten(x)
            except Unsupported:
                pass
            if ts:
                return self.ctx.mkstr(ufn("str:" + sk, *[t.sort() for t in ts], StrS)(*ts))
            return self.ctx.mkstr(z3.Const(clean(self.ctx.fresh_name("str:" + sk)), StrS))
        return str(x)

    def repr_of(self, x):
        x = self.resolve(x)
        if isinstance(x, (Sym, Mut, Closure, Bound, Model, GenObj, BlackHole)) or _has_sym(x):
            try:
                sk, ts = self.flatten(x)
            except Unsupported:
                sk, ts = "", []
            if ts:
                return self.ctx.mkstr(ufn("repr:" + sk, *[t.sort() for t in ts], StrS)(*ts))
            return self.ctx.mkstr(z3.Const(clean(self.ctx.fresh_name("repr")), StrS))
        return repr(x)

    def concat(self, xs):
        parts: List[Any] = []
        for x in xs:
            for p in self.parts(x):
                if isinstance(p, str):
                    if p == "":
                        continue
                    if parts and isinstance(parts[-1], str):
                        parts[-1] += p
                        continue
                elif p.eq(self.ctx.lit("")):
                    continue
                parts.append(p)
        if not parts:
            return ""
        if len(parts) == 1:
            p = parts[0]
            return p if isinstance(p, str) else SStr(p)
        ts = [self.ctx.lit(p) if isinstance(p, str) else p for p in parts]
        cat = ufn("cat", StrS, StrS, StrS)
        t = ts[-1]
        for q in reversed(ts[:-1]):
            n = cat(q, t)
            ln = ufn("strlen", StrS, IntS)
            self.ctx.axiom_once(("catlen", tkey(n)), ln(n) == ln(q) + ln(t))
            t = n
        s = self.ctx.mkstr(t)
        return SStr(t, parts)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        if self.pure:
            vals = []
            for x in e.values:
                v = self.resolve(self.expr(x, fr))
                if isinstance(v, SBool) or isinstance(v, bool):
                    c = v.t if isinstance(v, SBool) else v
                    if c is (not is_and):
                        return not is_and
                    vals.append(c)
                    continue
                # not a boolean: sequential semantics with forks
                if vals:
                    cond = self.conj(vals) if is_and else self.disj(vals)
                    if self.ctx.branch(cond) != is_and:
                        return not is_and
                    vals = []
                t = self.truth(v)
                if t != is_and:
                    return v
                last = v
                if x is e.values[-1]:
                    return v
            c = self.conj(vals) if is_and else self.disj(vals)
            return c if isinstance(c, bool) else SBool(c)
        v = None
        for j, x in enumerate(e.values):
            v = self.expr(x, fr)
            if j == len(e.values) - 1:
                return v
            if self.truth(v) != is_and:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.resolve(self.expr(e.operand, fr))
        if isinstance(e.op, ast.Not):
            c = self.truth_cond(v)
            return (not c) if isinstance(c, bool) else SBool(z3.Not(c))
        if isinstance(e.op, ast.USub):
            if isinstance(v, SInt):
                return SInt(-v.t)
            if not isinstance(v, Sym):
                return -v
        raise Unsupported("unary op")

    def e_IfExp(self, e, fr):
        if self.truth(self.expr(e.test, fr)):
            return self.expr(e.body, fr)
        return self.expr(e.orelse, fr)

    def e_Compare(self, e, fr):
        left = self.expr(e.left, fr)
        conds = []
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r, fr)
            c = self.compare(op, left, right)
            if c is False:
                return False
            if len(e.ops) > 1 and not isinstance(c, bool) and not self.pure:
                if not self.ctx.branch(c):
                    return False
                c = True
            if c is not True:
                conds.append(c)
            left = right
        c = self.conj(conds)
        return c if isinstance(c, bool) else SBool(c)

    def neg(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains(b, a))
        a, b = self.resolve(a), self.resolve(b)
        num = (SInt, SBool, int)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                x, y = a, b
            else:
                x, y = self.int_term(a), self.int_term(b)
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
        if not isinstance(a, (Sym, Mut)) and not isinstance(b, (Sym, Mut)):
            try:
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
            except TypeError as e:
                raise self.exc(TypeError, str(e))
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            lt = ufn("strlt", StrS, StrS, BoolS)
            ta, tb = self.ctx.sterm(a), self.ctx.sterm(b)
            return {ast.Lt: lambda: lt(ta, tb), ast.Gt: lambda: lt(tb, ta), ast.LtE: lambda: z3.Not(lt(tb, ta)), ast.GtE: lambda: z3.Not(lt(ta, tb))}[type(op)]()
        raise self.exc(TypeError, f"unorderable {type(a).__name__} {type(b).__name__}")

    def int_term(self, v):
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        return z3.IntVal(int(v))

    def is_(self, a, b):
        if isinstance(a, SUnion) and isinstance(b, SUnion) and a.key == b.key:
            return True
        a, b = self.resolve(a), self.resolve(b)
        if a is b:
            return True
        if isinstance(a, SOpq) and isinstance(b, SOpq):
            return a.t == b.t if a.tag == b.tag else False
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.eq(a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if a is None or b is None or isinstance(a, (enum.Enum, Mut, type)) or isinstance(b, (enum.Enum, Mut, type)):
                return False
            if not isinstance(a, Sym) or not isinstance(b, Sym):
                if type(a).__name__ == "object" or type(b).__name__ == "object":
                    return False
            raise Unsupported("identity of primitive values")
        return False

    def contains(self, c, x):
        c = self.resolve(c)
        if isinstance(c, (str, SStr)):
            x = self.resolve(x)
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(x, str):
                t = self.ctx.str_app(f"contains[{x!r}]", lambda s, x=x: x in s, c, "bool")
                if x == "":
                    return True
                self.ctx.axiom_once(("cont_ne", tkey(t.t)), z3.Implies(t.t, c.t != self.ctx.lit("")))
                return t.t
            return ufn("contains", StrS, StrS, BoolS)(self.ctx.sterm(c), self.ctx.sterm(x))
        if isinstance(c, (tuple, list, set, frozenset)):
            return self.disj([self.eq(x, y) for y in c])
        if isinstance(c, dict):
            return self.disj([self.eq(x, y) for y in c])
        if isinstance(c, PList):
            if c.is_concrete():
                return self.disj([self.eq(x, y) for y in c.items()])
            conds = []
            for s in c.segs:
                if isinstance(s, Unit):
                    conds.append(self.eq(x, s.v))
                else:
                    sk, ts = self.flatten((x, PList(self.ctx, [s])))
                    conds.append(ufn("member:" + sk, *[t.sort() for t in ts], BoolS)(*ts))
            return self.disj(conds)
        if isinstance(c, PDict):
            conds = []
            xx = self.resolve(x)
            for k, _ in c.entries:
                e = self.eq(xx, k)
                if not _has_sym(k) and k in c.maybe:
                    e = self.conj([e, c.maybe[k]])
                conds.append(e)
            if c.base is not None:
                conds.append(self.map_has(c.base, xx))
            return self.disj(conds)
        if isinstance(c, PSet):
            conds = [self.eq(x, y) for y in c.adds]
            if c.base is not None:
                nm, args = c.base
                sk, ts = self.flatten(x)
                ts = list(args) + ts
                conds.append(ufn(f"in:{nm}:{sk}", *[t.sort() for t in ts], BoolS)(*ts))
            return self.disj(conds)
        if isinstance(c, PObj):
            f = self.class_attr(c.cls, "__contains__")
            if f is not MISSING:
                return self.truth_cond(self.call(Bound(f, c), [x], {}))
        if isinstance(c, SOpq):
            m = self.env.opq_attr.get((c.tag, "__contains__"))
            if m is not None:
                return m(self, c, x)
        if isinstance(c, type) and issubclass(c, enum.Enum):
            return self.disj([self.is_(x, m) for m in c])
        raise Unsupported(f"in {c!r}")

    def map_has(self, base, key):
        if isinstance(base, Layered):
            return self.disj([self.contains(base.over, key), self.contains(base.under, key)])
        sk, ts = self.flatten(key)
        ts = list(base.args) + ts
        r = ufn(f"has:{base.name}:{sk}", *[t.sort() for t in ts], BoolS)(*ts)
        if base.inv is not None:
            c = self.conj([base.inv(key)])
            self.ctx.axiom_once(("keys", tkey(r)), z3.Implies(r, c) if not isinstance(c, bool) else z3.BoolVal(True) if c else z3.Not(r))
        return r

    def prove_keys(self, F, st, idx):
        """every key of the map satisfies the invariant of the definition's keys"""
        for c, inv in F.keys.items():
            d = self.state_get(st, c)
            if not isinstance(d, PDict):
                raise Unsupported("invariant of keys")
            now = functools.partial(inv, self, list(F.env), idx)
            w = f"keys of {F.name}.{c}"
            if d.base is not None:
                k = self.ctx.fresh(d.base.keyshape, "key")
                had = [] if d.base.inv is None else [d.base.inv(k)]
                goal = now(k)
                if goal is not True:
                    self.ctx.prove(w, z3.Implies(z3.And(*[z3.BoolVal(h) if isinstance(h, bool) else h for h in had]), z3.BoolVal(goal) if isinstance(goal, bool) else goal), "a key outside the bounds")
            for k, _ in d.entries:
                goal = now(self.resolve(k))
                self.ctx.prove(w + ": new key", goal, "a key outside the bounds")

    def map_get(self, base, key):
        sk, ts = self.flatten(key)
        ts = list(base.args) + ts
        sorts = [t.sort() for t in ts]

        def leaf(suf, so):
            return ufn(f"get:{base.name}:{sk}{suf}", *sorts, so)(*ts)

        return build(self.ctx, base.shape, leaf, f"{base.name}[{sk}]")

    def e_BinOp(self, e, fr):
        a = self.expr(e.left, fr)
        b = self.expr(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        num = (SInt, int, SBool)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                if isinstance(a, str) and isinstance(b, str):
                    return a + b
                return self.concat([a, b])
            if isinstance(a, (PList, list)) and isinstance(b, (PList, list)):
                l = PList(self.ctx)
                l.segs = list(self.segs_of(a)) + list(self.segs_of(b))
                return l
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if isinstance(op, ast.BitOr) and isinstance(a, PDict) and isinstance(b, (PDict, dict)):
            d = self.copy_dict(a)
            self.dict_update(d, b)
            return d
        if isinstance(a, SOpq):
            m = self.env.opq_attr.get((a.tag, {ast.Div: "__truediv__"}.get(type(op), "?")))
            if m is not None:
                return m(self, a, b)
        if isinstance(op, ast.BitOr) and isinstance(a, (set, frozenset, PSet)) and isinstance(b, (set, frozenset, PSet)):
            A = PSet(self.ctx, a.base, list(a.adds)) if isinstance(a, PSet) else PSet(self.ctx, adds=list(a))
            if isinstance(b, PSet) and b.base is not None:
                raise Unsupported("union of symbolic sets")
            A.adds = A.adds + (list(b.adds) if isinstance(b, PSet) else list(b))
            return A
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                try:
                    return self.native_binop(op, a, b)
                except ZeroDivisionError as e:
                    raise self.exc(ZeroDivisionError, str(e))
            x, y = self.int_term(a), self.int_term(b)
            if isinstance(op, ast.Add):
                return SInt(simp_t(x + y))
            if isinstance(op, ast.Sub):
                return SInt(simp_t(x - y))
            if isinstance(op, ast.Mult) and (not isinstance(a, Sym) or not isinstance(b, Sym)):
                return SInt(simp_t(x * y))
            if isinstance(op, (ast.Mod, ast.FloorDiv)) and isinstance(b, int) and b > 0:
                return SInt(x % y if isinstance(op, ast.Mod) else x / y)
            if isinstance(op, ast.Div) and isinstance(b, (int, float)):
                t = ufn(f"truediv[{b}]", IntS, ObjS)(x)
                return SOpq("float", t)
            raise Unsupported("arithmetic")
        if isinstance(a, SInt) and isinstance(b, float) and isinstance(op, ast.Div):
            return SOpq("float", ufn(f"truediv[{b}]", IntS, ObjS)(a.t))
        if isinstance(op, ast.Mult) and isinstance(a, (str, PList)) and isinstance(b, int) and not isinstance(b, bool):
            if isinstance(a, str):
                return a * b
            l = PList(self.ctx)
            l.segs = a.segs * b
            return l
        if not isinstance(a, (Sym, Mut)) and not isinstance(b, (Sym, Mut)):
            try:
                return self.native_binop(op, a, b)
            except TypeError as e:
                raise self.exc(TypeError, str(e))
        if isinstance(op, ast.Mult) and isinstance(b, PList) and isinstance(a, SInt):
            a, b = b, a
        if isinstance(op, ast.Mult) and isinstance(a, PList) and isinstance(b, SInt):
            from . import models

            if not a.segs:
                return PList(self.ctx)
            if len(a.segs) == 1 and isinstance(a.segs[0], Unit):  # [x for _ in range(b)]
                n = models.b_range(self, b).segs[0]
                return self.map_value(MapCand(z3.BoolVal(True), self.lift(a.segs[0].v), z3.Int(f"kappa{self.pure}"), 0), n, PList(self.ctx), n.lo, n.hi)
        raise Unsupported(f"binop {type(op).__name__} {a!r} {b!r}")

    def native_binop(self, op, a, b):
        import operator as o

        return {
            ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
            ast.Mod: o.mod, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.Pow: o.pow, ast.BitXor: o.xor,
        }[type(op)](a, b)

    def e_Attribute(self, e, fr):
        return self.getattr(self.expr(e.value, fr), self.mangle(fr, e.attr))

    def e_Subscript(self, e, fr):
        o = self.expr(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            s = e.slice
            lo = self.expr(s.lower, fr) if s.lower is not None else None
            hi = self.expr(s.upper, fr) if s.upper is not None else None
            st = self.expr(s.step, fr) if s.step is not None else None
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.expr(e.slice, fr))

    def e_Slice(self, e, fr):
        raise Unsupported("slice")

    def e_Lambda(self, e, fr):
        return self.make_closure(e, fr, "<lambda>")

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Await(self, e, fr):
        v = self.resolve(self.expr(e.value, fr))
        if isinstance(v, CoroObj):
            return v.run()
        return v

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.expr(e.value, fr)
        self.sink_of(fr).emit(v)
        return None

    def sink_of(self, fr):
        while fr.sink is None:
            fr = fr.parent
        return fr.sink

    def e_YieldFrom(self, e, fr):
        it = self.resolve(self.expr(e.value, fr))
        sink = self.sink_of(fr)
        if isinstance(it, GenObj):
            if it.done:
                return None
            it.done = True
            return it.run(sink)
        segs = self.segs_of(it)
        if segs is None:
            raise Unsupported(f"yield from {it!r}")
        if segs:
            sink.extend(segs)
        return None

    # comprehensions ------------------------------------------------------
    def e_ListComp(self, e, fr):
        out = PList(self.ctx)
        self.comp_run(e, fr, out)
        return out

    def e_GeneratorExp(self, e, fr):
        g = e.generators
        it = self.expr(g[0].iter, fr)

        def run(sink):
            tmp = PList(self.ctx)
            self.comp_run(e, fr, tmp, it0=it, sink=sink)
            return None

        go = GenObj(run, "<genexpr>")
        go.comp = (e, fr, it)
        return go

    def e_SetComp(self, e, fr):
        out = PList(self.ctx)
        self.comp_run(e, fr, out)
        return self.set_of(out)

    def set_of(self, lst):
        if all(isinstance(s, Unit) for s in lst.segs):
            return PSet(self.ctx, adds=[s.v for s in lst.segs])
        if len(lst.segs) == 1:
            b = lst.segs[0]
            r = PSet(self.ctx, base=("setof:" + b.atom.name, tuple(b.atom.args) + (as_int_term(b.lo), as_int_term(b.hi))))
            c = getattr(b.atom, "comp", None)
            if c is not None and isinstance(c.elt, (str, SStr)) or c is None and b.atom.shape == T.str:
                r.of = T.str
            return r
        raise Unsupported("set of a mixed sequence")

    def e_DictComp(self, e, fr):
        out = PList(self.ctx)
        ee = ast.GeneratorExp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        ast.copy_location(ee, e)
        ast.fix_missing_locations(ee)
        self.comp_run(ee, fr, out)
        d = PDict(self.ctx)
        if out.is_concrete():
            for k, v in out.items():
                self.dict_set(d, k, v)
            return d
        if len(out.segs) == 1 and isinstance(out.segs[0], Blk):
            d.base = SeqMap(self, out.segs[0])
            return d
        raise Unsupported("dict comprehension over a symbolic sequence")

    def comp_run(self, e, fr, out: PList, it0=MISSING, sink=None):
        f2 = Frame(self.ctx, fr.glob, fr, None, "<comp>")
        f2.fn = fr.fn

        def emit(v):
            if sink is not None:
                sink.emit(v)
            else:
                self.on_write(out, "segs")
                out.segs = out.segs + [Unit(v)]

        def emit_blk(b):
            if sink is not None:
                sink.extend([b])
            else:
                self.on_write(out, "segs")
                out.segs = out.segs + [b]

        def gen(k):
            if k == len(e.generators):
                emit(self.expr(e.elt, f2))
                return
            g = e.generators[k]
            it = it0 if (k == 0 and it0 is not MISSING) else self.expr(g.iter, f2)

            def body(v):
                self.assign(g.target, v, f2)
                for c in g.ifs:
                    if not self.truth(self.expr(c, f2)):
                        return
                gen(k + 1)

            it = self.resolve(it)
            if isinstance(it, GenObj):
                tmp = PList(self.ctx)
                self.gen_into(it, tmp)
                it = tmp
            segs = self.segs_of(it)
            if segs is None:
                raise Unsupported(f"comprehension over {it!r}")
            for s in list(segs):
                if isinstance(s, Unit):
                    body(s.v)
                elif k == len(e.generators) - 1 and not self.folds_for(s)[0]:
                    try:
                        comp = self.pure_comp(e, g, s, f2)
                    except Impure:
                        node = ast.For(target=g.target, iter=g.iter, body=[], orelse=[])
                        ast.copy_location(node, e)
                        self.loop_blk(s, body, node, f2)
                        continue
                    if comp is None:
                        emit_blk(s)
                        continue
                    emit_blk(Blk(self.comp_atom(comp), z3.IntVal(0), self.comp_len(comp)))
                else:
                    node = ast.For(target=g.target, iter=g.iter, body=[], orelse=[])
                    ast.copy_location(node, e)
                    self.loop_blk(s, body, node, f2)

        gen(0)

    def pure_comp(self, e, g, blk, f2):
        ctx = self.ctx
        kv = z3.Int(f"kappa{self.pure}")

        def thunk():
            ctx.assume(z3.And(kv >= as_int_term(blk.lo), kv < as_int_term(blk.hi)))
            f3 = Frame(ctx, f2.glob, f2, None, "<comp>")
            f3.fn = f2.fn
            self.assign(g.target, blk.atom.at(ctx, kv), f3)
            conds = []
            for c in g.ifs:
                v = self.resolve(self.expr(c, f3))
                cc = self.truth_cond(v)
                if cc is False:
                    return (False, None)
                if cc is not True:
                    conds.append(cc)
                    ctx.assume(cc)
            c = self.conj(conds)
            v = self.resolve(self.expr(e.elt, f3))  # decided here, not where the element is used
            return (c, tuple(self.resolve(x) for x in v) if type(v) is tuple else v)

        cond, elt = self.merge_eval(thunk)
        cond = z3.simplify(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if z3.is_true(cond) and isinstance(elt, Sym):
            base = blk.atom.at(ctx, kv)
            if isinstance(base, Sym) and base.t.eq(elt.t):
                return None  # the sequence itself
        sk, ts = self.flatten(elt)
        key = (blk.atom.key, tkey(blk.lo), tkey(blk.hi), blk.rev, sk, tuple(tkey(t) for t in ts), tkey(cond))
        return Comp(blk, key, elt, cond, kv)

    def merge_eval(self, thunk):
        """evaluate thunk() -> (cond, value) in all local branches and merge."""
        ctx = self.ctx
        saved = (ctx.decisions, ctx.prefix, ctx.alternatives, ctx.pc)
        snap = (dict(ctx.elem_cache), dict(ctx.union_res), dict(ctx.lits), list(ctx.apps), set(ctx._appkeys), set(ctx._axioms), dict(ctx.union_alt))
        serial = self.__dict__.get("pure_serial", None)
        self.pure += 1
        self.pure_serial = ctx.tick()
        results = []
        try:
            stack = [[]]
            while stack:
                pre = stack.pop()
                ctx.decisions, ctx.prefix, ctx.alternatives = [], pre, []
                ctx.pc = list(saved[3])
                n0 = len(ctx.pc)
                ctx.solver.push()
                ctx.conds_local = []
                fs = dict(ctx._fresh)
                try:
                    try:
                        mark = len(ctx.branch_conds)
                        r = thunk()
                        bc = ctx.branch_conds[mark:]
                        results.append((bc, r))
                    except Infeasible:
                        pass
                    except PyExc as e:
                        if ctx.feasible():
                            raise Unsupported(f"exception {e.exc.cls} inside a comprehension")
                finally:
                    stack.extend(ctx.alternatives)
                    ctx.solver.pop()
                    ctx._fresh = fs
                    ctx.elem_cache, ctx.union_res, ctx.lits = dict(snap[0]), dict(snap[1]), dict(snap[2])
                    ctx.union_alt = dict(snap[6])
                    ctx.apps, ctx._appkeys, ctx._axioms = list(snap[3]), set(snap[4]), set(snap[5])
                if len(results) > 40:
                    raise Unsupported("comprehension with too many cases")
        finally:
            self.pure -= 1
            if serial is not None:
                self.pure_serial = serial
            ctx.decisions, ctx.prefix, ctx.alternatives, ctx.pc = saved
        # restore literal constants created inside (they are used in terms)
        conds = []
        val = None
        vals = []
        for bc, (c, v) in results:
            full = self.conj(list(bc) + [c])
            conds.append(full)
            if c is not False:
                vals.append((self.conj(list(bc)), v))
        if not vals:
            return False, None
        val = self.merge_vals(vals)
        return self.disj(conds), val

    def merge_vals(self, vals):
        v0 = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            v0 = self.ite(c, v, v0)
        return v0

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            ta, tb = self.ctx.sterm(a), self.ctx.sterm(b)
            return a if ta.eq(tb) else SStr(z3.If(c, ta, tb))
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            ta = a.t if isinstance(a, SBool) else z3.BoolVal(a)
            tb = b.t if isinstance(b, SBool) else z3.BoolVal(b)
            return SBool(z3.If(c, ta, tb))
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            return SInt(z3.If(c, self.int_term(a), self.int_term(b)))
        if isinstance(a, SOpq) and isinstance(b, SOpq) and a.tag == b.tag:
            return a if a.t.eq(b.t) else SOpq(a.tag, z3.If(c, a.t, b.t), a.kind if a.kind == b.kind else None)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if a is b or (not isinstance(a, (Sym, Mut)) and not isinstance(b, (Sym, Mut)) and type(a) is type(b) and a == b):
            return a
        raise Unsupported("comprehension element with several shapes")

    def subst_val(self, v, kv, i):
        i = as_int_term(i)
        s = lambda t: z3.substitute(t, (kv, i))
        v = self.resolve(v) if not isinstance(v, SUnion) else v
        if isinstance(v, SStr):
            return self.ctx.mkstr(s(v.t)) if v.parts is None else SStr(s(v.t), [p if isinstance(p, str) else s(p) for p in v.parts])
        if isinstance(v, SInt):
            return SInt(s(v.t))
        if isinstance(v, SBool):
            return SBool(s(v.t))
        if isinstance(v, SOpq):
            return SOpq(v.tag, s(v.t), v.kind)
        if isinstance(v, SUnion):
            tag = s(v.tag)
            return SUnion(tkey(tag), tag, [(lambda a=a: self.subst_val(a(), kv, i)) for a in v.alts])
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, kv, i) for x in v)
        if isinstance(v, PList):
            segs = []
            for g in v.segs:
                if isinstance(g, Unit):
                    segs.append(Unit(self.subst_val(g.v, kv, i)))
                else:
                    segs.append(Blk(self.subst_atom(g.atom, kv, i), s(as_int_term(g.lo)), s(as_int_term(g.hi)), g.rev))
            return PList(self.ctx, segs)
        if isinstance(v, PDict):
            d = PDict(self.ctx, [[self.subst_val(k, kv, i), self.subst_val(x, kv, i)] for k, x in v.entries], v.base,
                      {k: s(c) for k, c in v.maybe.items()})
            return d
        if isinstance(v, PObj):
            o = PObj(self.ctx, v.cls)
            o.attrs = {k: self.subst_val(x, kv, i) for k, x in v.attrs.items()}
            return o
        if isinstance(v, Mut):
            raise Unsupported("substitution in object")
        return v

    def subst_atom(self, at, kv, i):
        if isinstance(at, CompAtom):
            raise Unsupported("nested comprehension element")
        return Atom(at.name, tuple(z3.substitute(a, (kv, i)) for a in at.args), at.shape, at._at, at._length)

    def comp_atom(self, c):
        at = CompAtom("comp:" + str(hash(c.key)), (), None)
        at.key = ("comp",) + (str(c.key),)
        at.comp = c
        at.interp = self
        if not z3.is_true(c.cond):
            nm = f"compidx:{c.key}"

            def at_fn(ctx, i):
                j = ufn(nm, IntS, IntS)(as_int_term(i))
                ctx.axiom_once(("ci", tkey(j)), z3.And(j >= as_int_term(c.blk.lo), j < as_int_term(c.blk.hi)))
                ctx.axiom_once(("cc", tkey(j)), z3.substitute(c.cond, (c.kvar, j)))
                return self.subst_val(c.elt, c.kvar, j)
        else:
            def at_fn(ctx, i):
                return self.subst_val(c.elt, c.kvar, simp_t(as_int_term(c.blk.lo) + as_int_term(i)))
        at._at = at_fn
        at._length = self.comp_len(c)
        at.name = f"comp:{c.key}"
        return at

    def comp_len(self, c):
        if z3.is_true(c.cond):
            return c.blk.n if not isinstance(c.blk.n, int) else z3.IntVal(c.blk.n)
        t = z3.Int(clean(f"complen:{c.key}"))
        if ("cl", tkey(t)) not in self.ctx._axioms:
            self.ctx.axiom_once(("cl", tkey(t)), z3.And(t >= 0, t <= as_int_term(c.blk.n)))
            if not self.pure:
                self.same_filter(c, t)
        return t

    def same_filter(self, c, t):
        """a filter that lets the same elements of the same sequence through as
        an earlier one lets as many through."""
        seen = self.ctx.__dict__.setdefault("filters", [])
        for o, ot in seen:
            if o.blk.atom.key == c.blk.atom.key and self.ctx.entails(z3.And(as_int_term(o.blk.lo) == as_int_term(c.blk.lo), as_int_term(o.blk.hi) == as_int_term(c.blk.hi))):
                k = self.ctx.fresh_int("kf")
                same = z3.substitute(o.cond, (o.kvar, k)) == z3.substitute(c.cond, (c.kvar, k))
                if self.ctx.entails(z3.Implies(z3.And(k >= as_int_term(c.blk.lo), k < as_int_term(c.blk.hi)), same)):
                    self.ctx.assume(t == ot)
                    break
        seen.append((c, t))

    # -------------------------------------------------------- containers
    def lift(self, v):
        if isinstance(v, list):
            l = PList(self.ctx, [Unit(x) for x in v])
            l.foreign = True
            return l
        if isinstance(v, dict):
            d = PDict(self.ctx, [[k, x] for k, x in v.items()])
            d.foreign = True
            return d
        return v

    def list_get(self, l, i):
        i = self.resolve(i)
        ctx = self.ctx
        if isinstance(i, bool):
            i = int(i)
        n = self.len_term(l)
        if isinstance(i, int) and i < 0:
            k = -i
            if isinstance(n, int):
                if k > n:
                    raise self.exc(IndexError, "list index")
                i = n - k
            else:
                # try the tail segments first
                segs = l.segs
                if all(isinstance(s, Unit) for s in segs[len(segs) - k:]) and len(segs) >= k:
                    return segs[len(segs) - k].v
                if not ctx.branch(n >= k):
                    raise self.exc(IndexError, "list index")
                i = SInt(simp_t(n - k))
        it = as_int_term(i) if isinstance(i, SInt) else z3.IntVal(i)
        if not (isinstance(n, int) and isinstance(i, int)):
            if isinstance(i, SInt) and not ctx.entails(it >= 0):
                if not ctx.branch(it >= 0):
                    it = simp_t(it + n)
                    if not ctx.branch(it >= 0):
                        raise self.exc(IndexError, "list index")
                    i = SInt(it)
            if not ctx.branch(it < n):
                raise self.exc(IndexError, "list index")
        elif i >= n:
            raise self.exc(IndexError, "list index")
        off = 0
        for s in l.segs:
            ln = 1 if isinstance(s, Unit) else s.n
            end = off + ln
            if isinstance(i, int) and isinstance(off, int) and isinstance(end, int):
                hit = off <= i < end
            else:
                hit = ctx.branch(z3.And(it >= off, it < end)) if len(l.segs) > 1 else True
            if hit:
                if isinstance(s, Unit):
                    return s.v
                return s.at(ctx, simp(it - off))
            off = simp(end) if not isinstance(end, int) else end
        raise Unsupported("list index")

    def getitem(self, o, k):
        o = self.resolve(o)
        if isinstance(o, (list, dict)):
            o = self.lift(o)
        if isinstance(o, PList):
            return self.list_get(o, k)
        if isinstance(o, PDict):
            r = self.dict_lookup(o, k)
            if r is MISSING:
                raise self.exc(KeyError, k)
            return r
        k = self.resolve(k)
        if isinstance(o, tuple):
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise self.exc(IndexError, "tuple index")
            raise Unsupported("symbolic tuple index")
        if isinstance(o, str) and not isinstance(k, Sym):
            try:
                return o[k]
            except IndexError:
                raise self.exc(IndexError, "string index")
        if isinstance(o, SStr):
            if isinstance(k, int):
                ln = self.ctx.str_app("strlen", len, o, "int")
                need = k + 1 if k >= 0 else -k
                if not self.ctx.branch(ln.t >= need):
                    raise self.exc(IndexError, "string index")
                r = self.ctx.str_app(f"char[{k}]", lambda s, k=k: s[k], o, "str")
                self.ctx.axiom_once(("chr", tkey(r.t)), ufn("strlen", StrS, IntS)(r.t) == 1)
                return r
            raise Unsupported("symbolic string index")
        if isinstance(o, type) and issubclass(o, enum.Enum):
            if isinstance(k, str):
                try:
                    return o[k]
                except KeyError:
                    raise self.exc(KeyError, k)
            for m in o.__members__:
                if self.ctx.branch(self.eq(k, m)):
                    return o[m]
            raise self.exc(KeyError, k)
        if isinstance(o, SOpq):
            m = self.env.opq_attr.get((o.tag, "__getitem__"))
            if m is not None:
                return m(self, o, k)
        if isinstance(o, PObj):
            f = self.class_attr(o.cls, "__getitem__")
            if f is not MISSING:
                return self.call(Bound(f, o), [k], {})
        if isinstance(o, type) or hasattr(o, "__class_getitem__"):
            return o
        if isinstance(o, MatchObj):
            return o.group(self, k)
        if not isinstance(o, (Sym, Mut)) and not isinstance(k, (Sym, Mut)):
            try:
                return o[k]
            except Exception as e:
                raise self.exc(type(e), str(e))
        raise Unsupported(f"subscript of {o!r}")

    def dict_lookup(self, d, k):
        k = self.resolve(k)
        for kk, v in reversed(d.entries):
            c = self.eq(k, kk)
            if c is False:
                continue
            if not _has_sym(kk) and not isinstance(kk, Mut) and kk in d.maybe:
                c = self.conj([c, d.maybe[kk]])
            if c is True or (c is not False and self.ctx.branch(c)):
                return v
        if d.base is not None:
            if isinstance(d.base, (SeqMap, Layered)):
                return d.base.get(k)
            if self.ctx.branch(self.map_has(d.base, k)):
                return self.map_get(d.base, k)
        return MISSING

    def dict_set(self, d, k, v):
        k = self.resolve(k)
        self.on_write(d, "dict")
        for e in d.entries:
            c = self.eq(k, e[0])
            if c is False:
                continue
            if c is True or self.ctx.branch(c):
                if not _has_sym(e[0]) and e[0] in d.maybe:
                    if not self.ctx.branch(d.maybe[e[0]]):
                        raise Unsupported("re-insertion of an optional key")
                    d.maybe = {a: b for a, b in d.maybe.items() if a != e[0]}
                d.entries = [[kk, (v if kk is e[0] else vv)] for kk, vv in d.entries]
                return
        d.entries = d.entries + [[k, v]]

    def setitem(self, o, k, v):
        o = self.resolve(o)
        if isinstance(o, PDict):
            self.dict_set(o, k, v)
            return
        if isinstance(o, PList):
            k = self.resolve(k)
            if isinstance(k, int) and o.is_concrete():
                if not -len(o.segs) <= k < len(o.segs):
                    raise self.exc(IndexError, "assignment")
                self.on_write(o, "segs")
                segs = list(o.segs)
                segs[k] = Unit(v)
                o.segs = segs
                return
        if isinstance(o, SOpq):
            m = self.env.opq_attr.get((o.tag, "__setitem__"))
            if m is not None:
                return m(self, o, k, v)
        if isinstance(o, PObj):
            self.call(self.getattr(o, "__setitem__"), [k, v], {})
            return
        raise Unsupported(f"item assignment on {o!r}")

    def delitem(self, o, k):
        o = self.resolve(o)
        if isinstance(o, PDict) and o.base is None:
            self.on_write(o, "dict")
            for e in o.entries:
                if self.ctx.branch(self.eq(k, e[0])):
                    o.entries = [x for x in o.entries if x is not e]
                    return
            raise self.exc(KeyError, k)
        if isinstance(o, SOpq):
            m = self.env.opq_attr.get((o.tag, "__delitem__"))
            if m is not None:
                return m(self, o, k)
        raise Unsupported("del item")

    def getslice(self, o, lo, hi, st):
        o, lo, hi, st = self.resolve(o), self.resolve(lo), self.resolve(hi), self.resolve(st)
        if isinstance(o, list):
            o = self.lift(o)
        if isinstance(o, PList):
            if o.is_concrete() and not any(isinstance(x, Sym) for x in (lo, hi, st)):
                return PList(self.ctx, [Unit(x) for x in o.items()[lo:hi:st]])
            if st == -1 and lo is None and hi is None:
                return self.reversed_list(o)
            if st is not None and st != 1:
                raise Unsupported("slice step")
            n = self.len_term(o)
            if lo is None and hi is None:
                return PList(self.ctx, list(o.segs))
            if (isinstance(lo, SInt) or isinstance(hi, SInt)) and len(o.segs) == 1 and isinstance(o.segs[0], Blk) and not o.segs[0].rev:
                a, b = as_int_term(0 if lo is None else lo), as_int_term(n if hi is None else hi)
                if self.ctx.entails(z3.And(a >= 0, a <= b, b <= as_int_term(n))):
                    s = o.segs[0]
                    return PList(self.ctx, [Blk(s.atom, simp_t(as_int_term(s.lo) + a), simp_t(as_int_term(s.lo) + b))])
            if hi is None and isinstance(lo, int) and lo >= 0:
                segs = list(o.segs)
                k = lo
                while k > 0 and segs:
                    s = segs[0]
                    if isinstance(s, Unit):
                        segs.pop(0)
                        k -= 1
                        continue
                    if self.ctx.branch(as_int_term(s.n) >= k):
                        segs[0] = Blk(s.atom, simp_t(as_int_term(s.lo) + k), s.hi) if not s.rev else Blk(s.atom, s.lo, simp_t(as_int_term(s.hi) - k), True)
                        k = 0
                    elif len(segs) == 1:
                        segs.pop(0)
                    else:
                        raise Unsupported("slice across blocks")
                return PList(self.ctx, segs)
            if lo in (None, 0) and isinstance(hi, int) and hi >= 0 and len(o.segs) == 1:
                s = o.segs[0]
                if not s.rev:
                    h = hi if self.ctx.branch(as_int_term(s.n) >= hi) else None
                    return PList(self.ctx, [Blk(s.atom, s.lo, simp_t(as_int_term(s.lo) + hi) if h is not None else s.hi)])
            if lo in (None, 0) and isinstance(hi, int) and hi < 0 and isinstance(o.segs[-1], Unit) and -hi <= len(o.segs):
                if all(isinstance(x, Unit) for x in o.segs[hi:]):
                    return PList(self.ctx, o.segs[:hi])
            raise Unsupported("slice of a symbolic list")
        if isinstance(o, (str, tuple)) and not any(isinstance(x, Sym) for x in (lo, hi, st)):
            return o[lo:hi:st]
        if isinstance(o, (str, SStr)) and st is None:
            # string slices: uninterpreted in all arguments
            def key(x):
                return "_" if x is None else str(x) if not isinstance(x, Sym) else "?"
            ts = [x.t for x in (lo, hi) if isinstance(x, Sym)]
            if isinstance(lo, int) and lo == 0:
                lo = None
            if lo is None and isinstance(hi, int) and hi == 1 and isinstance(o, SStr) and self.ctx.entails(self.ctx.str_app("strlen", len, o, "int").t >= 1):
                return self.getitem(o, 0)
            if not ts:
                return self.ctx.str_app(f"slice[{lo},{hi}]", lambda s, lo=lo, hi=hi: s[lo:hi], o, "str")
            t = ufn(f"slice[{key(lo)},{key(hi)}]", StrS, *[x.sort() for x in ts], StrS)(self.ctx.sterm(o), *ts)
            return self.ctx.mkstr(t)
        raise Unsupported("slice")

    def reversed_list(self, o):
        segs = []
        for s in reversed(o.segs):
            segs.append(s if isinstance(s, Unit) else Blk(s.atom, s.lo, s.hi, not s.rev))
        return PList(self.ctx, segs)

    def list_extend(self, l, src):
        src = self.resolve(src)
        if isinstance(src, GenObj):
            self.gen_into(src, l)
            return
        segs = self.segs_of(src)
        if segs is None:
            raise Unsupported(f"extend by {src!r}")
        self.on_write(l, "segs")
        l.segs = l.segs + list(segs)

    # -------------------------------------------------------- attributes
    def class_attr(self, cls, name):
        if not isinstance(cls, type):
            return MISSING
        for c in cls.__mro__:
            if name in c.__dict__:
                if c is object:
                    return MISSING
                return c.__dict__[name]
        return MISSING

    def getattr(self, o, name, default=MISSING):
        o = self.resolve(o)
        if isinstance(o, BlackHole):
            return BLACKHOLE
        if self.env.is_blackhole(o):
            return BLACKHOLE
        if isinstance(o, PObj):
            if isinstance(o.cls, type) and issubclass(o.cls, (StopIteration, SystemExit)) and name in ("value", "code"):
                return (list(o.attrs.get("args", ())) + [None])[0]
            ca = self.class_attr(o.cls, name)
            if isinstance(ca, property):
                return self.call(ca.fget, [o], {})
            if isinstance(ca, functools.cached_property):
                return self.call(ca.func, [o], {})
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, _Poison):
                    raise Unsupported(f"attribute {v.why} is not captured by a loop invariant")
                return v
            if ca is not MISSING:
                if isinstance(ca, staticmethod):
                    return ca.__func__
                if isinstance(ca, classmethod):
                    return Bound(ca.__func__, o.cls)
                if isinstance(ca, types.FunctionType) or isinstance(ca, Model) or isinstance(ca, Closure):
                    return Bound(ca, o)
                if isinstance(ca, functools._lru_cache_wrapper):
                    return Bound(ca.__wrapped__, o)
                if hasattr(ca, "__get__") and not isinstance(ca, type) and callable(ca):
                    return Bound(ca, o)
                return ca
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                d = PDict(self.ctx, [[k, v] for k, v in o.attrs.items()])
                d.foreign = True
                return d
            m = self.env.obj_attr.get((getattr(o.cls, "__name__", ""), name))
            if m is not None:
                return Bound(Model(m, name), o)
            if isinstance(o.cls, type) and issubclass(o.cls, BaseException) and name in ("with_traceback", "__traceback__", "__cause__"):
                return None
            if name in ("__init__", "__post_init__", "__init_subclass__"):
                return Model(lambda I, a, k: None)
            if default is not MISSING:
                return default
            if isinstance(o.cls, type) and o.cls.__module__.split(".")[0] in ("vspec", "pyvc"):
                raise Unsupported(f"{name} of a stand-in for a library object ({o.cls.__name__})")
            raise self.exc(AttributeError, name)
        if isinstance(o, SuperProxy):
            obj = o.obj
            cls = obj.cls if isinstance(obj, PObj) else obj
            mro = list(cls.__mro__)
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if name in c.__dict__:
                    ca = c.__dict__[name]
                    if isinstance(ca, property):
                        return self.call(ca.fget, [obj], {})
                    if isinstance(ca, staticmethod):
                        return ca.__func__
                    if isinstance(ca, classmethod):
                        return Bound(ca.__func__, cls)
                    if isinstance(ca, types.FunctionType):
                        return Bound(ca, obj)
                    if c is object or c.__module__ == "builtins" or name == "__init__":
                        return Model(lambda I, a, kw: None, "object." + name)
            raise self.exc(AttributeError, name)
        if isinstance(o, SOpq):
            m = self.env.opq_attr.get((o.tag, "." + name))
            if m is not None:
                return m(self, o)
            m = self.env.opq_attr.get((o.tag, name))
            if m is not None:
                return Bound(Model(lambda I, a, k, m=m: m(I, *a, **k), f"{o.tag}.{name}"), o)
            raise Unsupported(f"attribute {name} of {o.tag}")
        from . import models

        if isinstance(o, (SStr, PList, PDict, PSet, SInt, SBool, MatchObj, IterObj, GenObj)) or isinstance(o, (str, list, dict, tuple, set, frozenset, re.Pattern)):
            m = models.method(self, o, name)
            if m is not None:
                return m
            if isinstance(o, (Sym, Mut, MatchObj)):
                if default is not MISSING:
                    return default
                if any(hasattr(t, name) for c, t in REAL_TYPES if isinstance(o, c)):
                    raise Unsupported(f"method {name} of {type(o).__name__}")
                raise self.exc(AttributeError, name)
        if isinstance(o, (Closure,)):
            if name == "__name__":
                return o.name
            raise Unsupported(f"attribute {name} of function")
        if isinstance(o, Bound):
            if name == "__func__":
                return o.fn
            return self.getattr(o.fn, name)
        # native object
        if isinstance(o, type):
            for c in o.__mro__:
                if name in c.__dict__ and c is not object:
                    ca = c.__dict__[name]
                    if isinstance(ca, classmethod):
                        return Bound(ca.__func__, o)
                    if isinstance(ca, staticmethod):
                        return ca.__func__
                    if isinstance(ca, functools._lru_cache_wrapper):
                        return ca.__wrapped__
                    if isinstance(ca, (types.FunctionType,)):
                        return ca
                    break
        try:
            v = getattr(o, name)
        except AttributeError:
            if default is not MISSING:
                return default
            raise self.exc(AttributeError, name)
        if isinstance(v, types.MethodType) and self.env.interpretable(v.__func__):
            return Bound(v.__func__, v.__self__)
        return self.lift_global(v)

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, BlackHole):
            return
        if isinstance(o, PObj):
            ca = self.class_attr(o.cls, name)
            if isinstance(ca, property):
                if ca.fset is None:
                    raise self.exc(AttributeError, name)
                self.call(ca.fset, [o, v], {})
                return
            if dataclasses.is_dataclass(o.cls) and o.cls.__dataclass_params__.frozen:
                raise self.exc(dataclasses.FrozenInstanceError, name)
            self.on_write(o, name)
            o.attrs[name] = v
            return
        if isinstance(o, SOpq):
            m = self.env.opq_attr.get((o.tag, "=" + name))
            if m is not None:
                m(self, o, v)
                return
        raise Unsupported(f"attribute store on {o!r}")

    # -------------------------------------------------------------- calls
    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and f.first_arg is None:
                f = f.parent
            cls = f.defcls
            return SuperProxy(f.first_arg, cls)
        fn = self.expr(e.func, fr)
        args: List[Any] = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.to_items(self.expr(a.value, fr)))
            else:
                args.append(self.expr(a, fr))
        kw: Dict[str, Any] = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.expr(k.value, fr))
                if isinstance(d, dict):
                    d = self.lift(d)
                for s in self.dict_segs(d, "items"):
                    kw[s.v[0]] = s.v[1]
            else:
                kw[k.arg] = self.expr(k.value, fr)
        self.cur_frame = fr
        return self.call(fn, args, kw)

    def call(self, fn, args, kw):
        fn = self.resolve(fn)
        if isinstance(fn, BlackHole):
            return BLACKHOLE
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Unsupported("call depth")
        try:
            return self._call(fn, args, kw)
        finally:
            self.depth -= 1

    def _call(self, fn, args, kw):
        if isinstance(fn, Bound):
            return self._call(fn.fn, [fn.self_] + list(args), kw)
        if isinstance(fn, Model):
            return fn.fn(self, args, kw)
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kw)
        if isinstance(fn, staticmethod):
            fn = fn.__func__
        if self.env.is_blackhole(fn):
            return BLACKHOLE
        key = self.env.fn_key(fn)
        if key is not None:
            m = self.env.models.get(key)
            if m is not None:
                self.ctx.ex.trusted[key] = self.ctx.ex.trusted.get(key, 0) + 1
                return m(self, args, kw)
            c = self.env.contracts.get(key)
            if c is not None and self.env.use_contract(self, key, c):
                self.ctx.ex.contracts_used.add(key)
                return self.env.apply_contract(self, key, c, args, kw)
        if isinstance(fn, types.MethodType):
            return self._call(fn.__func__, [self.native_self(fn.__self__)] + list(args), kw)
        if isinstance(fn, functools._lru_cache_wrapper):
            return self._call(fn.__wrapped__, args, kw)
        if isinstance(fn, functools.partial):
            return self._call(fn.func, list(fn.args) + list(args), {**fn.keywords, **kw})
        if isinstance(fn, type):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, types.FunctionType):
            if self.env.interpretable(fn):
                if not self.env.is_spec(fn):
                    self.ctx.ex.inlined.add(key)
                return self.call_closure(self.native_closure(fn), args, kw)
        if isinstance(fn, PObj):
            f = self.class_attr(fn.cls, "__call__")
            if f is not MISSING:
                return self._call(f, [fn] + list(args), kw)
        from . import models

        return models.builtin(self, fn, args, kw)

    def native_self(self, o):
        return o

    def native_closure(self, fn):
        node, cls = fn_node(fn)
        parent = None
        if fn.__closure__:
            parent = Frame(self.ctx, fn.__globals__)
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    parent.vars[n] = c.cell_contents
                except ValueError:
                    pass
            parent.serial = -1
        c = Closure(node, fn.__globals__, parent, cls, fn.__qualname__, list(fn.__defaults__ or ()), dict(fn.__kwdefaults__ or {}), fn)
        return c

    def bind(self, c, args, kw, fr):
        a = c.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = {}
        for n, v in zip(pos, args):
            vals[n] = v
        extra = list(args[len(pos):])
        if extra:
            if a.vararg is None:
                raise self.exc(TypeError, "too many arguments")
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        nd = len(c.defaults)
        for j, n in enumerate(pos):
            if n in vals:
                if n in kw:
                    raise self.exc(TypeError, "multiple values")
                continue
            if n in kw:
                vals[n] = kw.pop(n)
            elif j >= len(pos) - nd:
                vals[n] = c.defaults[j - (len(pos) - nd)]
            else:
                raise self.exc(TypeError, f"missing argument {n}")
        for x in a.kwonlyargs:
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif x.arg in c.kwdefaults:
                vals[x.arg] = c.kwdefaults[x.arg]
            else:
                raise self.exc(TypeError, f"missing argument {x.arg}")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PDict(self.ctx, [[k, v] for k, v in kw.items()])
        elif kw:
            raise self.exc(TypeError, f"unexpected argument {list(kw)}")
        fr.vars.update(vals)
        return pos

    def call_closure(self, c, args, kw):
        fr = Frame(self.ctx, c.glob, c.parent, c.cls, c.name)
        pos = self.bind(c, args, kw, fr)
        fr.fn = c
        if c.cls and pos:
            fr.first_arg = fr.vars[pos[0]]
            fr.defcls = self.defining_class(c, fr.first_arg)
        if isinstance(c.node, ast.Lambda):
            return self.expr(c.node.body, fr)
        if is_gen(c.node):
            def run(sink):
                fr.sink = sink
                try:
                    self.block(c.node.body, fr)
                except ReturnEx as r:
                    return r.v
                return None
            return GenObj(run, c.name)
        if isinstance(c.node, ast.AsyncFunctionDef):
            return CoroObj(lambda: self.run_body(c, fr))
        return self.run_body(c, fr)

    def run_body(self, c, fr):
        try:
            self.block(c.node.body, fr)
        except ReturnEx as r:
            return r.v
        return None

    def defining_class(self, c, obj):
        cls = obj.cls if isinstance(obj, PObj) else obj if isinstance(obj, type) else type(obj)
        if not isinstance(cls, type):
            return None
        for k in cls.__mro__:
            if k.__name__ == c.cls:
                return k
        return cls

    def instantiate(self, cls, args, kw):
        from . import models

        r = models.construct(self, cls, args, kw)
        if r is not MISSING:
            return r
        if not self.env.class_ok(cls) and not issubclass(cls, BaseException):
            raise Unsupported(f"instantiation of {cls}")
        if inspect.isabstract(cls):
            raise self.exc(TypeError, "abstract class")
        o = PObj(self.ctx, cls)
        if issubclass(cls, BaseException):
            o.attrs["args"] = tuple(args)
            init = self.class_attr(cls, "__init__")
            if isinstance(init, types.FunctionType):
                self._call(init, [o] + list(args), kw)
            return o
        if dataclasses.is_dataclass(cls) and not self.has_own_init(cls):
            fs = [f for f in dataclasses.fields(cls) if f.init]
            names = [f.name for f in fs]
            if len(args) > len(names):
                raise self.exc(TypeError, "too many arguments")
            vals = dict(zip(names, args))
            for k, v in kw.items():
                if k not in names or k in vals:
                    raise self.exc(TypeError, f"argument {k}")
                vals[k] = v
            for f in dataclasses.fields(cls):
                if f.name in vals:
                    o.attrs[f.name] = vals[f.name]
                elif f.default is not dataclasses.MISSING:
                    o.attrs[f.name] = f.default
                elif f.default_factory is not dataclasses.MISSING:
                    if f.default_factory in (list, dict, set):
                        o.attrs[f.name] = {list: PList, dict: PDict, set: PSet}[f.default_factory](self.ctx)
                    else:
                        o.attrs[f.name] = self._call(f.default_factory, [], {})
                elif f.init:
                    raise self.exc(TypeError, f"missing argument {f.name}")
            pi = self.class_attr(cls, "__post_init__")
            if pi is not MISSING:
                self._call(pi, [o], {})
            return o
        init = self.class_attr(cls, "__init__")
        if isinstance(init, types.FunctionType):
            self._call(init, [o] + list(args), kw)
        elif args or kw:
            raise Unsupported(f"constructor of {cls}")
        return o

    def has_own_init(self, cls):
        init = self.class_attr(cls, "__init__")
        return isinstance(init, types.FunctionType) and self.env.interpretable(init)


class CompAtom(Atom):
    comp: Comp


class _PoisonSeg:
    def __init__(self, loc):
        self.loc = loc
        self.n = z3.IntVal(0)


class CoroObj:
    def __init__(self, run):
        self.run = run


class Layered:
    """the items of one dict over those of another"""

    inv = None

    def __init__(self, I, under, over):
        self.I, self.under, self.over = I, under, over
        sk, self.args = I.flatten([under, over])
        self.name = "layers:" + sk
        self.key = (self.name,) + tuple(tkey(t) for t in self.args)

    def get(self, k):
        v = self.I.dict_lookup(self.over, k)
        return self.I.dict_lookup(self.under, k) if v is MISSING else v


class SeqMap:
    """dict built from a symbolic sequence of (key, value) pairs: the last
    occurrence of a key wins."""

    inv = None

    def __init__(self, I, blk):
        self.I, self.blk = I, blk
        self.key = ("seqmap", blk.atom.key)
        self.name = "seqmap:" + blk.atom.name
        self.args = blk.atom.args

    def get(self, k):
        I, ctx = self.I, self.I.ctx
        sk, ts = I.flatten(k)
        ts2 = list(self.args) + ts
        sorts = [t.sort() for t in ts2]
        has = ufn(f"has:{self.name}:{sk}", *sorts, BoolS)(*ts2)
        j = ufn(f"idx:{self.name}:{sk}", *sorts, IntS)(*ts2)
        if ctx.branch(has):
            ctx.axiom_once(("sm", tkey(j)), z3.And(j >= as_int_term(self.blk.lo), j < as_int_term(self.blk.hi)))
            kk, v = self.blk.atom.at(ctx, j)
            c = I.eq(kk, k)
            if c is not True:
                ctx.assume(c)
            return v
        return MISSING


def simp_t(t):
    r = z3.simplify(t)
    return r


class MatchObj:
    """result of a successful symbolic regex match."""

    def __init__(self, pat, kind, s):
        self.pat, self.kind, self.s = pat, kind, s

    def group(self, I, g=0):
        from . import models

        return models.match_group(I, self, g)


REAL_TYPES = ((SStr, str), (PList, list), (PList, collections.deque), (PDict, dict), (PSet, set), (SInt, int), (SBool, bool), (MatchObj, re.Match), (GenObj, types.GeneratorType), (IterObj, types.GeneratorType))
