"""Symbolic values, path contexts and the exploration driver of pyvc.

pyvc is a deductive verifier for a subset of Python.  It executes the *real*
source text of a function (parsed from /repo/src on every run) symbolically,
path by path.  Loops over lists of unknown length are cut by inductive
invariants (a base obligation, a preservation obligation for an arbitrary
iteration, and a havocked exit), callees with a contract are replaced by that
contract, callees without one are inlined.  Every path ends in proof
obligations that are discharged by z3 (cvc5 as second back end).

Theory used: EUF + linear integer arithmetic.  Strings are an uninterpreted
sort; a string literal is a constant with a unique id, and the operations on
strings are uninterpreted functions that are axiomatised (a) on literals, by
evaluating the operation in CPython, and (b) by the axioms listed in
`STRING_AXIOMS` below, each of which is itself checked against CPython over
the whole of Unicode or on samples (see axioms.py).
"""
from __future__ import annotations

import re
import time
from dataclasses import dataclass, field
from typing import Any, Callable, Dict, List, Optional, Tuple

import z3

StrS = z3.DeclareSort("PyStr")
ObjS = z3.DeclareSort("PyObj")
IntS = z3.IntSort()
BoolS = z3.BoolSort()

_fn_cache: Dict[Tuple, z3.FuncDeclRef] = {}


_sort_names: Dict[Any, Any] = {}  # the sorts are kept, so that ids are never reused


def sort_name(s) -> str:
    i = s.get_id()
    r = _sort_names.get(i)
    if r is None:
        r = _sort_names[i] = (s, s.sexpr())
    return r[1]


def ufn(name: str, *sorts) -> z3.FuncDeclRef:
    key = (name,) + tuple(sort_name(s) for s in sorts)
    f = _fn_cache.get(key)
    if f is None:
        f = _fn_cache[key] = z3.Function(clean(name, key), *sorts)
    return f


_names: Dict[Any, str] = {}
_name_of: Dict[str, Any] = {}


def clean(name, key=None):
    """SMT-LIB-safe, injective version of a readable name."""
    key = key or (name,)
    r = _names.get(key)
    if r is None:
        base = re.sub(r"[^A-Za-z0-9_.!~#]+", "_", name)[:48]
        r = base if base == name and base not in _name_of else f"{base}.{len(_names)}"
        _names[key] = r
        _name_of[r] = name
    return r


def original(name):
    """the name clean() made this one of"""
    return _name_of.get(name, name)


_tkeys: Dict[int, Any] = {}


def tkey(t) -> str:
    """a short key of a term (terms are hash-consed; the table keeps them
    alive so that ids are never reused)."""
    if isinstance(t, (int, str)):
        return str(t)
    i = t.get_id()
    r = _tkeys.get(i)
    if r is None:
        r = _tkeys[i] = (t, str(t.as_long()) if z3.is_int_value(t) else f"#{i}")
    return r[1]


class Unsupported(Exception):
    """The function left the verifier's subset: obligation undecided."""


class NoBranch(Exception):
    """a fork was needed where a single condition was asked for"""


class PathEnd(Exception):
    """This path is finished (end of an arbitrary loop iteration)."""


class Infeasible(Exception):
    pass


class Restart(Exception):
    def __init__(self, prefix):
        super().__init__('restart')
        self.prefix = tuple(prefix)


class Budget(Exception):
    pass


# --------------------------------------------------------------------------
# values


class Sym:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"{type(self).__name__}({self.t})"

    def __bool__(self):
        raise Unsupported("native truth test of a symbolic value")

    __hash__ = None  # type: ignore

    def __eq__(self, o):
        raise Unsupported("native comparison of a symbolic value")


class SInt(Sym):
    __slots__ = ()


class SBool(Sym):
    __slots__ = ()


class SStr(Sym):
    __slots__ = ("parts",)

    def __init__(self, t, parts=None):
        self.t = t
        self.parts = parts  # list of str | z3 term for concatenations


class SOpq(Sym):
    """opaque object of an external library (an XML element, a path, ...)."""

    __slots__ = ("tag", "kind")

    def __init__(self, tag, t, kind=None):
        self.tag = tag
        self.t = t
        self.kind = kind  # a refinement of the tag

    def __repr__(self):
        return f"<{self.tag} {self.t}>"


class SUnion:
    """value whose shape is not known yet; resolved (forked) on inspection."""

    __slots__ = ("key", "tag", "alts", "shapes")

    def __init__(self, key, tag, alts, shapes=None):
        self.key, self.tag, self.alts, self.shapes = key, tag, alts, shapes

    def __repr__(self):
        return f"SUnion({self.key})"


class Blk:
    """the slice [lo, hi) of a symbolic sequence `atom`, possibly reversed."""

    __slots__ = ("atom", "lo", "hi", "rev", "peeled", "folds")

    def __init__(self, atom, lo, hi, rev=False):
        self.atom, self.lo, self.hi, self.rev = atom, lo, hi, rev

    def __repr__(self):
        return f"Blk({self.atom.key},{self.lo},{self.hi}{',rev' if self.rev else ''})"

    @property
    def n(self):
        return simp(self.hi - self.lo)

    def at(self, ctx, i):
        i = simp(self.hi - 1 - i) if self.rev else simp(self.lo + i)
        return self.atom.at(ctx, i)


class Unit:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Unit({self.v!r})"


class Atom:
    """a symbolic sequence: length term and an element function."""

    def __init__(self, name: str, args: Tuple = (), shape=None, at=None, length=None):
        self.name = name
        self.args = tuple(args)
        self.shape = shape
        self._at = at
        self._length = length
        self.key = (name,) + tuple(tkey(a) for a in self.args)

    def length(self, ctx):
        if self._length is not None:
            return self._length
        if self.args:
            f = ufn(self.name + "#len", *[a.sort() for a in self.args], IntS)
            t = f(*self.args)
        else:
            t = z3.Int(clean(self.name + "#len"))
        ctx.axiom_once(("len", self.key), t >= 0)
        return t

    def at(self, ctx, i):
        i = as_int_term(i)
        ck = (self.key, tkey(i))
        c = ctx.elem_cache.get(ck)
        if c is not None:
            return c
        if self._at is not None:
            v = self._at(ctx, i)
        else:
            sorts = [a.sort() for a in self.args] + [IntS]
            vals = self.args + (i,)

            def leaf(suffix, sort):
                return ufn(self.name + suffix, *sorts, sort)(*vals)

            v = build(ctx, self.shape, leaf, self.name)
        ctx.elem_cache[ck] = v
        return v


class Mut:
    """base of mutable heap objects; `serial` is their allocation time."""

    serial = -1
    foreign = False  # element of a symbolic sequence: writing it is out of frame


class PList(Mut):
    def __init__(self, ctx, segs=None):
        self.segs: List[Any] = segs if segs is not None else []
        ctx.alloc(self)

    def __repr__(self):
        return f"PList#{self.serial}{self.segs}"

    def is_concrete(self):
        return all(isinstance(s, Unit) for s in self.segs)

    def items(self):
        return [s.v for s in self.segs]


class PDict(Mut):
    """ordered dict; `base` is a symbolic map atom (or None), `entries` the
    updates made on top of it, in order.  `maybe[key]` (concrete keys only)
    holds the z3 condition under which that key is present."""

    def __init__(self, ctx, entries=None, base=None, maybe=None):
        self.entries: List[List[Any]] = entries if entries is not None else []
        self.base = base
        self.maybe = maybe or {}
        ctx.alloc(self)

    def __repr__(self):
        return f"PDict#{self.serial}({self.base},{self.entries})"

    def concrete_keys(self):
        return self.base is None and all(
            not isinstance(k, (Sym, SUnion)) and not _has_sym(k)
            for k, _ in self.entries
        )


class MapAtom:
    def __init__(self, name, args=(), shape=None, keyshape=None):
        self.name, self.args, self.shape = name, tuple(args), shape
        self.keyshape = keyshape or T.str
        self.inv = None  # what is known of all keys
        self.key = (name,) + tuple(tkey(a) for a in self.args)


class PSet(Mut):
    of = None  # shape of its elements, where they can be enumerated

    def __init__(self, ctx, base=None, adds=None):
        self.base = base  # name of an uninterpreted set, or None
        self.adds: List[Any] = adds or []
        ctx.alloc(self)

    def __repr__(self):
        return f"PSet#{self.serial}({self.base},{self.adds})"


class PObj(Mut):
    def __init__(self, ctx, cls, attrs=None):
        self.cls = cls
        self.attrs: Dict[str, Any] = attrs or {}
        ctx.alloc(self)

    def __repr__(self):
        return f"PObj<{getattr(self.cls, '__name__', self.cls)}>"


def _has_sym(v):
    if isinstance(v, (Sym, SUnion, Mut)):
        return True
    if isinstance(v, tuple):
        return any(_has_sym(x) for x in v)
    return False


def simp(t):
    if isinstance(t, int):
        return t
    r = z3.simplify(t)
    if z3.is_int_value(r):
        return r.as_long()
    return r


def as_int_term(i):
    if isinstance(i, SInt):
        return i.t
    if isinstance(i, bool):
        return z3.IntVal(int(i))
    if isinstance(i, int):
        return z3.IntVal(i)
    return i


# --------------------------------------------------------------------------
# shapes


class T:
    @dataclass(frozen=True)
    class Prim:
        kind: str

        def __repr__(self):
            return self.kind

    @dataclass(frozen=True)
    class Opq:
        tag: str
        kind: Any = None

        def __repr__(self):
            return f"T.Opq(tag={self.tag!r})" if self.kind is None else f"T.Opq({self.tag}:{self.kind})"

    @dataclass(frozen=True)
    class Union:
        alts: Tuple

    @dataclass(frozen=True)
    class Rec:
        keys: Tuple  # ((key, shape, optional), ...)

    @dataclass(frozen=True)
    class List:
        elem: Any

    @dataclass(frozen=True)
    class Tuple:
        elems: Tuple

    @dataclass(frozen=True)
    class Const:
        v: Any

        def __hash__(self):
            return hash(repr(self.v))

        def __eq__(self, o):
            return (
                isinstance(o, T.Const)
                and type(o.v) is type(self.v)
                and (o.v is self.v or o.v == self.v)
            )

    @dataclass(frozen=True)
    class Set:
        pass

    @dataclass(frozen=True)
    class Map:
        val: Any
        key: Any = None

    @dataclass(frozen=True)
    class Obj:
        cls: Any
        attrs: Tuple

    int = Prim("int")
    nat = Prim("nat")
    str = Prim("str")
    bool = Prim("bool")
    none = Prim("none")

    @staticmethod
    def rec(opt=(), **keys):
        return T.Rec(tuple((k, s, k in opt) for k, s in keys.items()))

    @staticmethod
    def opt(s):
        return T.Union((T.none, s))

    @staticmethod
    def union(*alts):
        out: List = []
        for a in alts:
            for b in a.alts if isinstance(a, T.Union) else (a,):
                if b not in out:
                    out.append(b)
        return out[0] if len(out) == 1 else T.Union(tuple(out))


def build(ctx, shape, leaf, name):
    """build a symbolic value of `shape`; `leaf(suffix, sort)` names terms."""
    if isinstance(shape, T.Prim):
        k = shape.kind
        if k == "int":
            return SInt(leaf("", IntS))
        if k == "nat":
            t = leaf("", IntS)
            ctx.axiom_once(("nat", tkey(t)), t >= 0)
            return SInt(t)
        if k == "str":
            return ctx.mkstr(leaf("", StrS))
        if k == "bool":
            return SBool(leaf("", BoolS))
        if k == "none":
            return None
    if isinstance(shape, T.Opq):
        return SOpq(shape.tag, leaf("", ObjS), shape.kind)
    if isinstance(shape, T.Const):
        return shape.v
    if isinstance(shape, T.Union):
        tag = leaf("?tag", IntS)
        ctx.axiom_once(("tag", tkey(tag)), z3.And(tag >= 0, tag < len(shape.alts)))
        alts = [
            (lambda j=j, s=s: build(
                ctx, s, lambda suf, so: leaf(f"|{j}{suf}", so), f"{name}|{j}"
            ))
            for j, s in enumerate(shape.alts)
        ]
        return SUnion(tkey(tag), tag, alts, shape.alts)
    if isinstance(shape, T.Rec):
        d = PDict(ctx)
        d.foreign = True
        for k, s, o in shape.keys:
            d.entries.append(
                [k, build(ctx, s, lambda suf, so, k=k: leaf(f".{k}{suf}", so), f"{name}.{k}")]
            )
            if o:
                d.maybe[k] = leaf(f".{k}?has", BoolS)
        return d
    if isinstance(shape, T.Tuple):
        return tuple(
            build(ctx, s, lambda suf, so, j=j: leaf(f"<{j}>{suf}", so), f"{name}<{j}>")
            for j, s in enumerate(shape.elems)
        )
    if isinstance(shape, T.List):
        ident = leaf("@list", ObjS)
        return fresh_list_of(ctx, ident, shape.elem)
    if isinstance(shape, T.Set):
        return PSet(ctx, base=("setof:" + name, (leaf("@set", ObjS),)))
    if isinstance(shape, T.Map):
        return PDict(ctx, base=MapAtom("mapof:" + name, (leaf("@map", ObjS),), shape.val, shape.key))
    if isinstance(shape, T.Obj):
        o = PObj(ctx, shape.cls)
        for k, s in shape.attrs:
            o.attrs[k] = build(ctx, s, lambda suf, so, k=k: leaf(f".{k}{suf}", so), f"{name}.{k}")
        return o
    raise Unsupported(f"cannot build shape {shape}")


def fresh_list_of(ctx, ident, elem_shape):
    at = Atom("items:" + repr(elem_shape)[:60], (ident,), shape=elem_shape)
    l = PList(ctx, [])
    l.foreign = True
    l.segs = [Blk(at, z3.IntVal(0), at.length(ctx))]
    return l


# --------------------------------------------------------------------------
# solver statistics and obligations


@dataclass
class Obligation:
    name: str
    status: str  # discharged | failed | unknown | unsupported
    backend: str
    seconds: float
    detail: str = ""
    path: Tuple = ()


class Stats:
    def __init__(self):
        self.checks = 0
        self.solver_s = 0.0
        self.by_backend: Dict[str, int] = {}


# string axioms that are instantiated besides the literal evaluations
STRING_AXIOMS = [
    "len(s) >= 0, and len(s) == 0 iff s == ''",
    "literals are pairwise distinct",
    "s.startswith(p) implies p in s",
    "f(literal) is CPython's value of f on that literal",
    "upper() and lower() are idempotent; a text of characters no other character maps to is the image of itself only",
    "upper() and lower() commute with stripping white space; strip() is lstrip().rstrip(); stripping disjoint characters commutes",
]


_IMPURE = {}


def impure(fname):
    """the characters some other character is mapped to (by upper or lower):
    a text without any of them that is its own image is nobody else's."""
    r = _IMPURE.get(fname)
    if r is None:
        f = str.upper if fname == "str.upper" else str.lower
        r = _IMPURE[fname] = {d for c in map(chr, range(0x110000)) if (m := f(c)) != c for d in m} | {"\u03c2", "\u03c3"}
    return r


class Path:
    """state of one symbolic path (rebuilt by replaying `prefix`)."""

    TIMEOUT = 3000
    PROVE_TIMEOUT = 20000

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.decisions: List[int] = []
        self.pc: List[Any] = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.TIMEOUT)
        self.alternatives: List[List[int]] = []
        self._serial = 0
        self._fresh: Dict[str, int] = {}
        self._axioms = set()
        self.elem_cache: Dict[Any, Any] = {}
        self.union_res: Dict[str, Any] = {}
        self.lits: Dict[str, Any] = {}
        self.apps: List[Tuple] = []
        self._appkeys = set()
        self._ends = {}
        self.loops: List[Any] = []  # active loop cuts (arbitrary iteration)
        self.frame_writes: List[Any] = []
        self.notes: List[str] = []
        self.obs: List[Obligation] = []
        self.branch_conds: List[Any] = []
        self.frame_ok: set = set()
        self.no_branch = 0
        self.union_alt: Dict[Any, Any] = {}
        self.pending_restart = None
        self.objs: Dict[int, Any] = {}

    # -- allocation -----------------------------------------------------
    def alloc(self, o):
        self._serial += 1
        o.serial = self._serial
        self.objs[self._serial] = o

    def tick(self):
        self._serial += 1
        return self._serial

    def fresh_name(self, base):
        n = self._fresh.get(base, 0)
        self._fresh[base] = n + 1
        return f"{base}!{n}"

    def fresh(self, shape, base):
        name = self.fresh_name(base)
        return build(self, shape, lambda suf, so: z3.Const(clean(name + suf), so), name)

    def fresh_int(self, base):
        return z3.Int(clean(self.fresh_name(base)))

    # -- assumptions ----------------------------------------------------
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.pc.append(c)
        self.solver.add(c)

    def axiom_once(self, key, c):
        if key in self._axioms:
            return
        self._axioms.add(key)
        self.assume(c)

    # -- strings --------------------------------------------------------
    def lit(self, s: str):
        t = self.lits.get(s)
        if t is None:
            t = z3.Const(clean("lit:" + repr(s)), StrS)
            self.lits[s] = t
            self.assume(ufn("strid", StrS, IntS)(t) == lit_id(s))
            self.assume(ufn("strlen", StrS, IntS)(t) == len(s))
            for app in list(self.apps):
                self._lit_axiom(app, s, t)
        return t

    def mkstr(self, t):
        ln = ufn("strlen", StrS, IntS)(t)
        if ("slen", tkey(t)) not in self._axioms:
            self._axioms.add(("slen", tkey(t)))
            self.assume(ln >= 0)
            self.assume((ln == 0) == (t == self.lit("")))
        return SStr(t)

    def sterm(self, v):
        if isinstance(v, SStr):
            return v.t
        if isinstance(v, str):
            return self.lit(v)
        raise Unsupported(f"not a string: {v!r}")

    def _lit_axiom(self, app, s, lt):
        fname, pyfn, arg, t, res, depth = app
        if depth > 1:
            return
        try:
            val = pyfn(s)
        except Exception:
            return
        k = ("la", tkey(t), s)
        if k in self._axioms:
            return
        self._axioms.add(k)
        if fname in ("str.upper", "str.lower"):
            if val != s:
                self.assume(t != lt)  # idempotent: its results are its fixed points
            elif s and not (set(s) & impure(fname)):
                self.assume((t == lt) == (arg == lt))  # only s itself maps to s
        if fname.startswith("slice[None,") and fname[11:-1] == str(len(s)) and s:
            # a prefix of that length is s iff the string starts with s
            sw = self.str_app(f"str.startswith[{s!r}]", lambda x: x.startswith(s), SStr(arg), "bool")
            self.assume((t == lt) == sw.t)
        if res == "bool":
            self.assume(z3.Implies(arg == lt, t == bool(val)))
        elif res == "int":
            self.assume(z3.Implies(arg == lt, t == int(val)))
        elif res == "str":
            vt = self.lit(val) if len(self.lits) < 120 else None
            if vt is not None:
                self.assume(z3.Implies(arg == lt, t == vt))

    def ends(self, which, arg, p, t):
        """the other prefixes (suffixes) asked of this string"""
        known = self._ends.setdefault((which, tkey(arg)), {})
        known[p] = t
        return [(q, o) for q, o in known.items() if q != p]

    def str_app(self, fname, pyfn, s, res, depth=1):
        """apply the uninterpreted function `fname` to the string s."""
        if isinstance(s, str):
            return pyfn(s)
        arg = s.t
        sort = {"bool": BoolS, "int": IntS, "str": StrS}[res]
        t = ufn(fname, StrS, sort)(arg)
        if tkey(t) not in self._appkeys:
            self._appkeys.add(tkey(t))
            app = (fname, pyfn, arg, t, res, depth)
            self.apps.append(app)
            for l, lt in list(self.lits.items()):
                self._lit_axiom(app, l, lt)
        if res == "bool":
            return SBool(t)
        if res == "int":
            return SInt(t)
        return self.mkstr(t)

    # -- branching ------------------------------------------------------
    def _check(self, *assumptions):
        t0 = time.time()
        r = self.solver.check(*assumptions)
        self.ex.stats.checks += 1
        self.ex.stats.solver_s += time.time() - t0
        return r

    def _next(self):
        i = len(self.decisions)
        if i < len(self.prefix):
            return self.prefix[i]
        return None

    def branch(self, cond) -> bool:
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.no_branch:
            raise NoBranch()
        d = self._next()
        if d is None:
            if self.ex.deadline and time.time() > self.ex.deadline:
                raise Budget("time budget exhausted")
            pos = self._check(cond) != z3.unsat
            if not pos:
                d = 0
            else:
                neg = self._check(z3.Not(cond)) != z3.unsat
                d = 1
                if neg:
                    self.alternatives.append(self.decisions + [0])
        self.decisions.append(d)
        self.branch_conds.append(cond if d else z3.Not(cond))
        self.assume(cond if d else z3.Not(cond))
        return bool(d)

    def choose(self, n: int) -> int:
        d = self._next()
        if d is None:
            d = 0
            for j in range(1, n):
                self.alternatives.append(self.decisions + [j])
        self.decisions.append(d)
        return d

    def feasible(self):
        return self._check() != z3.unsat

    def entails(self, c) -> bool:
        """is c a consequence of the path condition? (used for pruning)"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return not self.feasible()
        return self._check(z3.Not(c)) == z3.unsat

    # -- obligations ----------------------------------------------------
    def prove(self, name, cond, detail=""):
        """discharge `path condition ==> cond`."""
        t0 = time.time()
        if cond is True:
            # still count only if the path is feasible (vacuity guard)
            self.obs.append(Obligation(name, "discharged", "structural", 0.0, "", tuple(self.decisions)))
            return True
        why, detail = detail, ""
        goal = z3.BoolVal(False) if cond is False else cond
        s = self.solver
        s.set("timeout", self.PROVE_TIMEOUT)
        r = self._check(z3.Not(goal))
        s.set("timeout", self.TIMEOUT)
        backend = "z3-" + z3.get_version_string()
        if r == z3.unsat:
            st = "discharged"
            if self.ex.cross_check:
                other = cvc5_unsat(self.pc + [z3.Not(goal)])
                self.ex.cross[other] = self.ex.cross.get(other, 0) + 1
                if other == "sat":
                    st = "unknown"
                    detail += " [z3 unsat, cvc5 sat]"
        elif r == z3.sat:
            st = "failed"
            try:
                detail += "\ncounter-model: " + str(s.model())[:1500]
            except z3.Z3Exception:
                pass
            names = [original(f) for f in symbols(self.pc + [goal])]
            if any(f.startswith(("complen:", "compidx:")) for f in names) and any("fold:" in f for f in names):
                # what passes a filter and what a fold makes of all are not
                # related: no counter-model
                st = "unknown"
        else:
            st = "unknown"
            if cvc5_unsat(self.pc + [z3.Not(goal)]) == "unsat":
                st, backend = "discharged", "cvc5"
        if st != "discharged":
            detail = (why() if callable(why) else why) + detail
        self.obs.append(
            Obligation(name, st, backend, time.time() - t0, detail, tuple(self.decisions))
        )
        return st == "discharged"


def symbols(terms):
    """the names of the uninterpreted symbols in some terms"""
    seen, out, todo = set(), set(), list(terms)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            todo += t.children()
    return out


_lit_ids: Dict[str, int] = {}


def lit_id(s):
    if s not in _lit_ids:
        _lit_ids[s] = len(_lit_ids) + 1
    return _lit_ids[s]


def cvc5_unsat(assertions, timeout_ms=20000):
    try:
        import cvc5

        s2 = z3.Solver()
        for a in assertions:
            s2.add(a)
        text = s2.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(timeout_ms))
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "vc")
        sm = parser.getSymbolManager()
        res = "unknown"
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            o = str(out).strip()
            if o in ("sat", "unsat", "unknown"):
                res = o
        return res
    except Exception:
        return "error"


class Explorer:
    """runs `fn(path)` over all feasible decision sequences."""

    def __init__(self, name, budget_s=120.0, max_paths=6000, cross_check=False):
        self.name = name
        self.stats = Stats()
        self.obligations: List[Obligation] = []
        self.budget_s = budget_s
        self.deadline = None
        self.max_paths = max_paths
        self.loopinfo: Dict[Any, Any] = {}
        self.paths = 0
        self.completed = 0
        self.restarts = 0
        self.cross_check = cross_check
        self.cross: Dict[str, int] = {}
        self.trusted: Dict[str, int] = {}
        self.inlined: set = set()
        self.contracts_used: set = set()
        self.dropped: Dict[Any, Any] = {}
        self.folds_checked: set = set()
        self.folds_used: set = set()
        self.by_path: Dict[Tuple, Any] = {}
        self.tolerant, self.skipped, self.why = False, 0, ""
        self.extra: List[Obligation] = []

    def run(self, fn: Callable[[Path], None]):
        self.deadline = time.time() + self.budget_s
        stack: List[List[int]] = [[]]
        self.restarts = 0
        try:
            while stack:
                prefix = stack.pop()
                p = Path(self, prefix)
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Budget("path budget exhausted")
                done = False
                try:
                    fn(p)
                    done = True
                except (PathEnd, Infeasible):
                    pass
                except Unsupported as e:
                    if not self.tolerant:
                        raise
                    self.skipped += 1
                    self.why = str(e)
                except Restart as r:
                    pre = list(r.prefix)
                    n = len(pre)
                    self.restarts += 1
                    if self.restarts > 1500:
                        raise Budget("invariant search did not converge")
                    # forget everything explored below that loop entry
                    stack = [q for q in stack if q[:n] != pre]
                    for d in [d for d in self.by_path if list(d[:n]) == pre]:
                        del self.by_path[d]
                    # what was found out about loops inside it named its objects by numbers of that run
                    for k in [k for k in self.loopinfo if len(k[0]) > n and list(k[0][:n]) == pre]:
                        del self.loopinfo[k]
                    stack.extend(a for a in p.alternatives if a[:n] != pre)
                    stack.append(pre)
                    continue
                self.by_path[tuple(p.decisions)] = (done, p.obs)
                stack.extend(p.alternatives)
        except Budget as e:
            self.extra.append(Obligation(self.name + ":budget", "unknown", "engine", 0.0, str(e)))
        except Unsupported as e:
            self.extra.append(Obligation(self.name + ":subset", "unsupported", "engine", 0.0, str(e)))
        except RecursionError as e:
            self.extra.append(Obligation(self.name + ":subset", "unsupported", "engine", 0.0, "recursion " + str(e)[:80]))
        for done, obs in self.by_path.values():
            self.completed += bool(done)
            self.obligations.extend(obs)
        self.obligations.extend(self.extra)
        if not self.obligations:
            self.obligations.append(Obligation(self.name + ":vacuous", "unsupported", "engine", 0.0, "no obligation was generated"))
        elif self.completed == 0 and not self.extra:
            self.obligations.append(Obligation(self.name + ":vacuous", "unsupported", "engine", 0.0, "no path reached the end of the function"))
        return self
