"""Models of Python builtins and of the standard-library pieces spex uses.

Everything in this file is trusted: it is the verifier's semantics of the
language and library.  `selftest.py` checks it against CPython.
"""
from __future__ import annotations

import ast
import builtins
import collections
import copy
import dataclasses
import enum
import re
import typing

import z3

from .core import original
from .core import (
    tkey,    Atom, Blk, BoolS, IntS, Mut, ObjS, PDict, PList, PObj, PSet, SBool, SInt, SOpq,
    SStr, StrS, SUnion, Sym, T, Unit, Unsupported, as_int_term, build, clean, simp, ufn, _has_sym,
)
from . import interp as ip
from .interp import MISSING, Bound, Closure, Comp, GenObj, IterObj, MatchObj, Model

try:
    import re._parser as sre_parse
    import re._constants as sre_constants
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants


# --------------------------------------------------------------------------
# regular expressions


def _groups_info(p: re.Pattern):
    """per group: (always participates, only digits)."""
    info = {}
    tree = sre_parse.parse(p.pattern, p.flags & ~re.UNICODE if False else p.flags)

    def digits(sub):
        if len(sub) != 1:
            return False
        op, av = sub[0]
        if op is sre_constants.MAX_REPEAT:
            lo, hi, s = av
            if lo < 1 or len(s) != 1:
                return False
            o2, a2 = s[0]
            return o2 is sre_constants.IN and a2 == [(sre_constants.CATEGORY, sre_constants.CATEGORY_DIGIT)]
        return False

    def walk(sub, always):
        for op, av in sub:
            if op is sre_constants.SUBPATTERN:
                g, _, _, s = av
                if g is not None:
                    info[g] = (always, digits(s))
                walk(s, always)
            elif op in (sre_constants.MAX_REPEAT, sre_constants.MIN_REPEAT):
                lo, hi, s = av
                walk(s, always and lo > 0)
            elif op is sre_constants.BRANCH:
                for s in av[1]:
                    walk(s, False)
            elif op in (sre_constants.ASSERT, sre_constants.ASSERT_NOT):
                walk(av[1], False)
            elif op is getattr(sre_constants, "POSSESSIVE_REPEAT", None):
                walk(av[2], always and av[0] > 0)
            elif op is getattr(sre_constants, "ATOMIC_GROUP", None):
                walk(av, always)

    walk(tree, True)
    return info


_ginfo = {}


def pat_id(I, p):
    """name of the language of p: patterns that were shown equivalent to a
    reference pattern share its name (see regexeq.py)."""
    return I.env.pattern_name(p)


def regex_call(I, p, kind, s):
    s = I.resolve(s)
    if s is None:
        raise I.exc(TypeError, "expected string")
    if isinstance(s, str):
        m = getattr(p, kind)(s)
        return m
    if not isinstance(s, SStr):
        raise Unsupported("regex on non-string")
    name = pat_id(I, p)
    c = I.ctx.str_app(f"re.{kind}[{name}]", lambda x: getattr(p, kind)(x) is not None, s, "bool")
    if I.ctx.branch(c.t):
        return MatchObj(p, kind, s)
    return None


def match_group(I, m, g):
    p = m.pat
    g = I.resolve(g)
    if isinstance(g, str):
        if g not in p.groupindex:
            raise I.exc(IndexError, "no such group")
        g = p.groupindex[g]
    name = pat_id(I, p)
    if id(p) not in _ginfo:
        _ginfo[id(p)] = (p, _groups_info(p))
    info = _ginfo[id(p)][1]
    kind = m.kind

    def val(x, g=g):
        mm = getattr(p, kind)(x)
        if mm is None:
            raise ValueError
        r = mm.group(g)
        if r is None:
            raise ValueError
        return r

    if g != 0:
        if g not in info:
            raise I.exc(IndexError, "no such group")
        always, digits = info[g]
    else:
        always, digits = True, False
    if not always:
        def has(x, g=g):
            mm = getattr(p, kind)(x)
            return mm is not None and mm.group(g) is not None
        h = I.ctx.str_app(f"re.{kind}.has{g}[{name}]", has, m.s, "bool")
        if not I.ctx.branch(h.t):
            return None
    r = I.ctx.str_app(f"re.{kind}.group{g}[{name}]", val, m.s, "str")
    if digits:
        I.ctx.axiom_once(("dig", tkey(r.t)), z3.And(
            ufn("isint", StrS, BoolS)(r.t), ufn("int_of", StrS, IntS)(r.t) >= 0, r.t != I.ctx.lit("")))
        I.ctx.str_app("isint", _isint, r, "bool")
        I.ctx.str_app("int_of", int, r, "int")
    return r


def _isint(s):
    try:
        int(s)
        return True
    except ValueError:
        return False


# --------------------------------------------------------------------------
# methods of builtin types


def method(I, o, name):
    if isinstance(o, (SStr, str)):
        f = STR.get(name)
        if f is None:
            if isinstance(o, str) and hasattr(o, name):
                return Model(lambda I, a, k, o=o, n=name: native_str(I, o, n, a, k), "str." + name)
            return None
        return Model(lambda I, a, k: f(I, o, *a, **k), "str." + name)
    if isinstance(o, (PList, list)):
        f = LIST.get(name)
    elif isinstance(o, (PDict, dict)):
        f = DICT.get(name)
    elif isinstance(o, (PSet, set, frozenset)):
        f = SET.get(name)
    elif isinstance(o, MatchObj):
        f = {"group": lambda I, o, *g: match_group(I, o, g[0] if g else 0) if len(g) < 2 else tuple(match_group(I, o, x) for x in g),
             "groups": lambda I, o: tuple(match_group(I, o, g + 1) for g in range(o.pat.groups)),
             "groupdict": lambda I, o: PDict(I.ctx, [[n, match_group(I, o, n)] for n in o.pat.groupindex])}.get(name)
    elif isinstance(o, re.Pattern):
        if name in ("match", "search", "fullmatch"):
            f = lambda I, o, s: regex_call(I, o, name, s)
        elif name == "sub":
            f = lambda I, o, repl, s: re_sub(I, o, repl, s)
        else:
            return None
    elif isinstance(o, tuple):
        return None
    else:
        return None
    if f is None:
        return None
    return Model(lambda I, a, k: f(I, o, *a, **k), f"{type(o).__name__}.{name}")


def native_str(I, o, name, a, k):
    a = [I.resolve(x) for x in a]
    if any(_has_sym(x) for x in a) or any(_has_sym(x) for x in k.values()):
        raise Unsupported(f"str.{name} with symbolic arguments")
    a = [to_native(x) for x in a]
    try:
        r = getattr(o, name)(*a, **k)
    except Exception as e:
        raise I.exc(type(e), str(e))
    if isinstance(r, list):
        return PList(I.ctx, [Unit(x) for x in r])
    return r


def to_native(x):
    if isinstance(x, PList) and x.is_concrete():
        return [to_native(y) for y in x.items()]
    if isinstance(x, (Sym, Mut, SUnion)):
        raise Unsupported("native call on symbolic data")
    return x


def _conc(I, xs, what):
    out = []
    for x in xs:
        x = I.resolve(x)
        if isinstance(x, (Sym, Mut)):
            raise Unsupported(f"{what} with a symbolic argument")
        out.append(x)
    return out


def _commuted(I, name, a, s):
    """a canonical order of trimming and case mapping: the case mappings keep
    blanks and make none, so they are applied before white space is stripped;
    stripping of disjoint characters at both ends is independent."""
    t = s.t
    if t.num_args() != 1 or getattr(s, "parts", None) is not None:
        return None
    inner = original(t.decl().name())
    if name in ("upper", "lower") and not a and inner in ("str.strip", "str.lstrip", "str.rstrip"):
        return unary(inner[4:])(I, unary(name)(I, SStr(t.arg(0))))
    if name in ("rstrip", "lstrip") and not a and inner == ("str.lstrip" if name == "rstrip" else "str.rstrip"):
        return unary("strip")(I, SStr(t.arg(0)))
    if name == "rstrip" and len(a) == 1 and isinstance(a[0], str) and inner.startswith("str.lstrip["):
        try:
            chars = ast.literal_eval(inner[len("str.lstrip"):])
        except (ValueError, SyntaxError):
            return None
        if len(chars) == 1 and isinstance(chars[0], str) and not set(chars[0]) & set(a[0]):
            return unary("lstrip")(I, unary("rstrip")(I, SStr(t.arg(0)), a[0]), chars[0])
    return None


def unary(name):
    def f(I, s, *a):
        a = [I.resolve(x) for x in a]
        if isinstance(s, str) and not any(isinstance(x, Sym) for x in a):
            return getattr(s, name)(*a)
        if any(isinstance(x, Sym) for x in a):
            ts = [I.ctx.sterm(x) for x in a]
            return I.ctx.mkstr(ufn(f"str.{name}/{len(a)}", *[StrS] * (len(a) + 1), StrS)(I.ctx.sterm(s), *ts))
        key = f"str.{name}" + (repr(a) if a else "")
        r = _commuted(I, name, a, s)
        if r is not None:
            return r
        r = I.ctx.str_app(key, lambda x: getattr(x, name)(*a), s, "str", depth=1)
        if name in ("strip", "upper", "lower") and not a:
            # idempotent on its own results
            if isinstance(s, SStr) and ("idem", name, str(s.t)) in I.ctx._axioms:
                return s
            I.ctx._axioms.add(("idem", name, tkey(r.t)))
        if name in ("upper", "lower"):
            I.ctx.axiom_once(("ule", tkey(r.t)), (r.t == I.ctx.lit("")) == (s.t == I.ctx.lit("")))
        return r
    return f


def str_starts(which):
    def f(I, s, p, *rest):
        if rest:
            raise Unsupported("startswith with offsets")
        p = I.resolve(p)
        if isinstance(p, tuple):
            return _sb(I.disj([_cond(f(I, s, q)) for q in p]))
        if isinstance(s, str) and isinstance(p, str):
            return getattr(s, which)(p)
        if isinstance(p, str) and isinstance(s, SStr):
            if p == "":
                return True
            r = I.ctx.str_app(f"str.{which}[{p!r}]", lambda x: getattr(x, which)(p), s, "bool")
            c = I.contains(s, p)
            I.ctx.axiom_once(("sw", which, p, tkey(s.t)), z3.Implies(r.t, c))
            # of two prefixes (suffixes) of one string the longer has the shorter as its own
            for q, other in I.ctx.ends(which, s.t, p, r.t):
                if getattr(p, which)(q):
                    I.ctx.axiom_once(("swq", which, p, q, tkey(s.t)), z3.Implies(r.t, other))
                elif getattr(q, which)(p):
                    I.ctx.axiom_once(("swq", which, q, p, tkey(s.t)), z3.Implies(other, r.t))
                else:
                    I.ctx.axiom_once(("swx", which, p, q, tkey(s.t)), z3.Not(z3.And(r.t, other)))
            return r
        return SBool(ufn(f"str.{which}", StrS, StrS, BoolS)(I.ctx.sterm(s), I.ctx.sterm(p)))
    return f


def _cond(v):
    return v.t if isinstance(v, SBool) else bool(v)


def _sb(c):
    return c if isinstance(c, bool) else SBool(c)


def _replaced(s):
    """(x, c, d) when s is x.replace(c, d) with the character c"""
    t = getattr(s, "t", None)
    if t is None or not z3.is_app(t) or t.num_args() != 1:
        return None
    name = original(t.decl().name())
    if not name.startswith("str.replace["):
        return None
    try:
        c, d = ast.literal_eval("(" + name[12:-1] + ")")
    except (ValueError, SyntaxError):
        return None
    return (SStr(t.arg(0)), c, d) if len(c) == 1 else None


def str_replace(I, s, a, b, *n):
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(s, str) and isinstance(a, str) and isinstance(b, str):
        return s.replace(a, b, *n)
    if isinstance(a, str) and isinstance(b, str) and not n:
        before = _replaced(s) if len(a) == 1 else None
        if before is not None and a < before[1] and a not in before[2] and before[1] not in b:
            # replacements of different characters commute: one order for both
            return str_replace(I, str_replace(I, before[0], a, b), before[1], before[2])
        r = I.ctx.str_app(f"str.replace[{a!r},{b!r}]", lambda x: x.replace(a, b), s, "str")
        if a:
            I.ctx.axiom_once(("rep", tkey(r.t)), z3.Or(I.contains(s, a), r.t == s.t))
        return r
    raise Unsupported("replace")


def _split_of(I, segs):
    """(string, separator) when the list is all the pieces of a split string"""
    if len(segs) != 1 or not isinstance(segs[0], Blk) or segs[0].rev or not segs[0].atom.name.startswith("split["):
        return None
    at = segs[0].atom
    try:
        sep = ast.literal_eval(at.name[6:-1])
    except (ValueError, SyntaxError):
        return None
    if not sep or simp(as_int_term(segs[0].lo)) != 0 or tkey(as_int_term(segs[0].hi)) != tkey(as_int_term(at.length(I.ctx))):
        return None
    return I.ctx.mkstr(at.args[0]), sep


def str_split(I, s, sep=None, maxsplit=-1):
    sep, maxsplit = I.resolve(sep), I.resolve(maxsplit)
    if isinstance(s, str) and not isinstance(sep, Sym):
        return PList(I.ctx, [Unit(x) for x in s.split(sep, maxsplit)])
    if isinstance(sep, str) and maxsplit == 1:
        if I.ctx.branch(I.contains(s, sep)):
            a = I.ctx.str_app(f"before[{sep!r}]", lambda x: x.split(sep, 1)[0], s, "str")
            b = I.ctx.str_app(f"after[{sep!r}]", lambda x: x.split(sep, 1)[1], s, "str")
            return PList(I.ctx, [Unit(a), Unit(b)])
        # no separator: the whole string; partition's head agrees
        I.ctx.axiom_once(("bf", sep, tkey(s.t)), ufn(f"before[{sep!r}]", StrS, StrS)(s.t) == s.t)
        return PList(I.ctx, [Unit(s)])
    if maxsplit == -1:
        at = Atom(f"split[{sep!r}]", (s.t,), at=None, shape=T.str)
        n = at.length(I.ctx)
        if sep is not None:
            I.ctx.axiom_once(("spl", tkey(n)), n >= 1)
            # the first piece is what precedes the first separator
            def at_fn(ctx, i, at=at):
                v = ctx.mkstr(ufn(f"split[{sep!r}]@", StrS, IntS, StrS)(s.t, as_int_term(i)))
                if isinstance(simp(as_int_term(i)), int) and simp(as_int_term(i)) == 0:
                    bf = ctx.str_app(f"before[{sep!r}]", lambda x: x.split(sep, 1)[0], s, "str")
                    ctx.axiom_once(("sp0", tkey(v.t)), v.t == bf.t)
                return v
            at._at = at_fn
        else:
            def at_fn(ctx, i, at=at):
                v = ctx.mkstr(ufn("words@", StrS, IntS, StrS)(s.t, as_int_term(i)))
                ctx.axiom_once(("wne", tkey(v.t)), v.t != ctx.lit(""))
                return v
            at._at = at_fn
        return PList(I.ctx, [Blk(at, z3.IntVal(0), n)])
    raise Unsupported("split")


def str_partition(I, s, sep):
    sep = I.resolve(sep)
    if isinstance(s, str) and isinstance(sep, str):
        return s.partition(sep)
    if I.ctx.branch(I.contains(s, sep)):
        a = I.ctx.str_app(f"before[{sep!r}]", lambda x: x.split(sep, 1)[0], s, "str")
        b = I.ctx.str_app(f"after[{sep!r}]", lambda x: x.split(sep, 1)[1], s, "str")
        return (a, sep, b)
    I.ctx.axiom_once(("bf", sep, tkey(s.t)), ufn(f"before[{sep!r}]", StrS, StrS)(s.t) == s.t)
    return (s, "", "")


def str_join(I, sep, it):
    it = I.resolve(it)
    if isinstance(it, GenObj):
        tmp = PList(I.ctx)
        I.gen_into(it, tmp)
        segs = tmp.segs
    else:
        segs = I.segs_of(it)
    if segs is None:
        raise Unsupported(f"join of {it!r}")
    if all(isinstance(s, Unit) for s in segs):
        parts = []
        for j, s in enumerate(segs):
            v = I.resolve(s.v)
            if not isinstance(v, (str, SStr)):
                raise I.exc(TypeError, "sequence item: expected str instance")
            if j:
                parts.append(sep)
            parts.append(v)
        return I.concat(parts)
    whole = _split_of(I, segs) if isinstance(I.resolve(sep), str) else None
    if whole is not None:
        return str_replace(I, whole[0], whole[1], I.resolve(sep))
    tmp = PList(I.ctx, list(segs))
    sk, ts = I.flatten((sep, tmp))
    return I.ctx.mkstr(ufn("join:" + sk, *[t.sort() for t in ts], StrS)(*ts))


def str_pred(name):
    def f(I, s):
        if isinstance(s, str):
            return getattr(s, name)()
        return I.ctx.str_app(f"str.{name}", lambda x: getattr(x, name)(), s, "bool")
    return f


def str_find(name):
    def f(I, s, sub):
        if isinstance(s, str) and isinstance(sub, str):
            return getattr(s, name)(sub)
        sub = I.resolve(sub)
        if isinstance(sub, str):
            r = I.ctx.str_app(f"str.{name}[{sub!r}]", lambda x: getattr(x, name)(sub), s, "int")
            # what they say of membership
            low = 0 if name == "count" else -1
            I.ctx.axiom_once(("sf", tkey(r.t)), z3.And(r.t >= low, (r.t > low) == I.contains(s, sub)))
            return r
        raise Unsupported(name)
    return f


def str_index(I, s, sub):
    sub = I.resolve(sub)
    if isinstance(s, str) and isinstance(sub, str):
        try:
            return s.index(sub)
        except ValueError:
            raise I.exc(ValueError, "substring not found")
    if not I.ctx.branch(I.contains(s, sub)):
        raise I.exc(ValueError, "substring not found")
    return str_find("find")(I, s, sub)


def str_encode(I, s, *a, **k):
    if isinstance(s, str):
        return s.encode(*a, **k)
    return SOpq("bytes", ufn("encode" + repr(a), StrS, ObjS)(s.t))


STR = {
    **{n: unary(n) for n in ("upper", "lower", "strip", "lstrip", "rstrip", "title", "capitalize", "casefold", "removeprefix", "removesuffix")},
    "startswith": str_starts("startswith"),
    "endswith": str_starts("endswith"),
    "replace": str_replace,
    "split": str_split,
    "partition": str_partition,
    "join": str_join,
    "encode": str_encode,
    **{n: str_pred(n) for n in ("isdigit", "isspace", "isalpha", "isdecimal", "isnumeric", "isalnum", "isidentifier", "isupper", "islower")},
    "find": str_find("find"),
    "rfind": str_find("rfind"),
    "index": str_index,
    "count": str_find("count"),
}


def _l(I, o):
    return I.lift(o) if isinstance(o, list) else o


def list_append(I, o, v):
    if isinstance(o, list):
        raise Unsupported("mutation of a module-level list")
    I.on_write(o, "segs")
    o.segs = o.segs + [Unit(v)]


def list_insert(I, o, i, v):
    i = I.resolve(i)
    I.on_write(o, "segs")
    if isinstance(i, int) and o.is_concrete():
        xs = o.items()
        xs.insert(i, v)
        o.segs = [Unit(x) for x in xs]
        return
    if i == 0 if isinstance(i, int) else False:
        o.segs = [Unit(v)] + o.segs
        return
    if isinstance(i, SInt) and len(o.segs) == 1 and isinstance(o.segs[0], Blk) and not o.segs[0].rev:
        b = o.segs[0]
        if I.ctx.entails(z3.And(i.t >= 0, i.t <= b.n)):
            mid = simp(as_int_term(b.lo) + i.t)
            mid = as_int_term(mid)
            o.segs = [Blk(b.atom, b.lo, mid), Unit(v), Blk(b.atom, mid, b.hi)]
            return
    raise Unsupported("insert at a symbolic position")


def list_pop(I, o, i=-1):
    i = I.resolve(i)
    I.on_write(o, "segs")
    if not o.segs:
        raise I.exc(IndexError, "pop from empty list")
    if i == -1 and isinstance(o.segs[-1], Unit):
        v = o.segs[-1].v
        o.segs = o.segs[:-1]
        return v
    if i == 0 and isinstance(o.segs[0], Unit):
        v = o.segs[0].v
        o.segs = o.segs[1:]
        return v
    if i == 0 and isinstance(o.segs[0], Blk):
        b = o.segs[0]
        v = I.list_get(o, 0)
        if not b.rev:
            o.segs = [Blk(b.atom, as_int_term(simp(as_int_term(b.lo) + 1)), b.hi)] + o.segs[1:]
            return v
    raise Unsupported("pop")


def list_index(I, o, v):
    for j, x in enumerate(I.to_items(o)):
        if I.truth(_sb(I.eq(x, v))):
            return j
    raise I.exc(ValueError, "not in list")


def list_reverse(I, o):
    I.on_write(o, "segs")
    o.segs = I.reversed_list(o).segs


def list_sort(I, o, **k):
    raise Unsupported("sort")


LIST = {
    "append": list_append,
    "extend": lambda I, o, v: I.list_extend(o, v),
    "insert": list_insert,
    "pop": list_pop,
    "index": list_index,
    "reverse": list_reverse,
    "sort": list_sort,
    "copy": lambda I, o: PList(I.ctx, list(_l(I, o).segs)),
    "clear": lambda I, o: (I.on_write(o, "segs"), setattr(o, "segs", []))[1],
    "count": lambda I, o, v: sum(1 for x in I.to_items(o) if I.truth(_sb(I.eq(x, v)))),
}


def dict_get(I, o, k, d=None, **kw):
    o2 = I.lift(o) if isinstance(o, dict) else o
    r = I.dict_lookup(o2, k)
    return d if r is MISSING else r


def dict_pop(I, o, k, *d):
    r = I.dict_lookup(o, k)
    if r is MISSING:
        if d:
            return d[0]
        raise I.exc(KeyError, k)
    I.delitem(o, k)
    return r


def dict_setdefault(I, o, k, d=None):
    r = I.dict_lookup(o, k)
    if r is MISSING:
        I.dict_set(o, k, d)
        return d
    return r


def dict_update_m(I, o, *a, **k):
    for x in a:
        x = I.resolve(x)
        I.dict_update(o, x)
    for kk, v in k.items():
        I.dict_set(o, kk, v)


def dview(what):
    def f(I, o):
        if isinstance(o, dict):
            o = I.lift(o)
        l = PList(I.ctx)
        if o.base is not None and isinstance(o.base, DictAtom):
            l.segs = o.base.segs(I, what) + [Unit({"keys": k, "values": v, "items": (k, v)}[what]) for k, v in o.entries]
            return l
        l.segs = I.dict_segs(o, what)
        return l
    return f


class DictAtom:
    """marker base class for symbolic dicts with an item sequence."""


DICT = {
    "get": dict_get,
    "pop": dict_pop,
    "setdefault": dict_setdefault,
    "update": dict_update_m,
    "keys": dview("keys"),
    "values": dview("values"),
    "items": dview("items"),
    "copy": lambda I, o: I.copy_dict(I.lift(o) if isinstance(o, dict) else o),
}


def set_add(I, o, v):
    if isinstance(o, (set, frozenset)):
        raise Unsupported("mutation of a module-level set")
    I.on_write(o, "set")
    o.adds = o.adds + [v]


SET = {
    "add": set_add,
    "update": lambda I, o, v: [set_add(I, o, x) for x in I.to_items(v)] and None,
    "union": lambda I, o, v: I.binop(__import__("ast").BitOr(), o, v),
}


# --------------------------------------------------------------------------
# constructors of builtin types


def construct(I, cls, args, kw):
    f = CTOR.get(cls)
    if f is not None:
        return f(I, *args, **kw)
    if issubclass(cls, enum.Enum):
        v = I.resolve(args[0])
        if not isinstance(v, Sym):
            try:
                return cls(v)
            except ValueError as e:
                raise I.exc(ValueError, str(e))
    m = I.env.ctors.get(f"{cls.__module__}.{cls.__qualname__}")
    if m is not None:
        I.ctx.ex.trusted[f"{cls.__module__}.{cls.__qualname__}"] = 1
        return m(I, args, kw)
    return MISSING


def c_int(I, x=0, *b):
    x = I.resolve(x)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(I.int_term(x))
    if isinstance(x, SStr):
        if b:
            raise Unsupported("int with base")
        ok = I.ctx.str_app("isint", _isint, x, "bool")
        if not I.ctx.branch(ok.t):
            raise I.exc(ValueError, "invalid literal for int()")
        return I.ctx.str_app("int_of", int, x, "int")
    if isinstance(x, SOpq) and x.tag == "float":
        raise Unsupported("int(float)")
    if x is None or isinstance(x, Mut):
        raise I.exc(TypeError, "int() argument")
    try:
        return int(x, *b)
    except (ValueError, TypeError) as e:
        raise I.exc(type(e), str(e))


def c_list(I, it=()):
    l = PList(I.ctx)
    I.list_extend(l, it)
    return l


def c_tuple(I, it=()):
    return tuple(I.to_items(it))


def c_dict(I, *a, **k):
    d = PDict(I.ctx)
    for x in a:
        x = I.resolve(x)
        if isinstance(x, PDict) and x.base is not None:
            d = I.copy_dict(x)
        elif isinstance(x, (PDict, dict)):
            I.dict_update(d, x)
        else:
            for p in I.to_items(x):
                kk, v = I.unpack(I.resolve(p), 2)
                I.dict_set(d, kk, v)
    for kk, v in k.items():
        I.dict_set(d, kk, v)
    return d


def c_set(I, it=()):
    it = I.resolve(it)
    if isinstance(it, PSet):
        return PSet(I.ctx, it.base, list(it.adds))
    if isinstance(it, GenObj):
        tmp = PList(I.ctx)
        I.gen_into(it, tmp)
        it = tmp
    segs = I.segs_of(it)
    return I.set_of(PList(I.ctx, list(segs)))


def c_bool(I, x=False):
    c = I.truth_cond(x)
    return c if isinstance(c, bool) else SBool(c)


def c_type(I, x, *rest):
    if rest:
        raise Unsupported("type()")
    x = I.resolve(x)
    return type_of(I, x)


def type_of(I, x):
    if isinstance(x, PObj):
        return x.cls
    if isinstance(x, SStr):
        return str
    if isinstance(x, SInt):
        return int
    if isinstance(x, SBool):
        return bool
    if isinstance(x, PList):
        return list
    if isinstance(x, PDict):
        return dict
    if isinstance(x, PSet):
        return set
    if isinstance(x, SOpq):
        c = I.env.opq_class.get(x.tag)
        if c is not None:
            return c
        raise Unsupported(f"type of {x.tag}")
    return type(x)


CTOR = {
    int: c_int,
    str: lambda I, x="": I.str_of(x),
    bool: c_bool,
    list: c_list,
    tuple: c_tuple,
    dict: c_dict,
    set: c_set,
    frozenset: c_set,
    type: c_type,
    object: lambda I: PObj(I.ctx, object),
    reversed: lambda I, x: I.reversed_list(PList(I.ctx, list(I.segs_of(x)))),
    enumerate: lambda I, x, start=0: b_enumerate(I, x, start),
    zip: lambda I, *xs, **k: b_zip(I, *xs),
    map: lambda I, f, *xs: b_map(I, f, *xs),
    filter: lambda I, f, x: b_filter(I, f, x),
    super: lambda I, *a: ip.SuperProxy(a[1], a[0]),
    range: lambda I, *a: b_range(I, *a),
}


def b_range(I, *a):
    a = [I.resolve(x) for x in a]
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3:
        raise Unsupported("range step")
    l, h = I.int_term(lo), I.int_term(hi)
    n = simp(h - l)
    at = Atom("range", (l, h), at=lambda ctx, i: SInt(z3.simplify(l + as_int_term(i))), length=z3.If(h > l, h - l, z3.IntVal(0)))
    return PList(I.ctx, [Blk(at, z3.IntVal(0), at._length)])


class EnumAtom(Atom):
    pass


def b_enumerate(I, x, start=0):
    x = I.resolve(x)
    start = I.resolve(start)
    if isinstance(x, GenObj):
        def run(sink):
            cnt = PList(I.ctx)  # counter cell: number of elements so far

            holder = ip.Frame(I.ctx, {}, None, None, "<enumerate>")
            holder.vars["n"] = start

            def emit(v):
                n = I.lookup(holder, "n")
                sink.emit((n, v))
                I.store(holder, "n", I.binop(__import__("ast").Add(), n, 1))

            def extend(segs):
                for s in segs:
                    if isinstance(s, Unit):
                        emit(s.v)
                    else:
                        n = I.lookup(holder, "n")
                        sink.extend([enum_blk(I, s, n)])
                        I.store(holder, "n", I.binop(__import__("ast").Add(), n, SInt(as_int_term(s.n))))

            return x.run(Sink_(emit, extend))

        x.done = True
        return GenObj(run, "enumerate")
    segs = I.segs_of(x)
    if segs is None:
        raise Unsupported("enumerate")
    out = []
    n = start
    for s in segs:
        if isinstance(s, Unit):
            out.append(Unit((n, s.v)))
            n = I.binop(__import__("ast").Add(), n, 1)
        else:
            out.append(enum_blk(I, s, n))
            n = I.binop(__import__("ast").Add(), n, SInt(as_int_term(s.n)))
    return PList(I.ctx, out)


Sink_ = ip.Sink


def enum_blk(I, s, n):
    """pairs (index, element): element k of the block has index n + k - lo."""
    base = s
    nt = I.int_term(n)
    if s.rev:
        raise Unsupported("enumerate over a reversed block")
    off = simp(nt - as_int_term(s.lo))

    def at(ctx, i):
        return (SInt(z3.simplify(as_int_term(off) + as_int_term(i))) if not (isinstance(off, int) and off == 0) else SInt(z3.simplify(as_int_term(i))), base.atom.at(ctx, i))

    a = EnumAtom(f"enum[{off}]:" + s.atom.name, s.atom.args, at=at, length=s.atom.length(I.ctx))
    a.key = ("enum", str(off)) + s.atom.key
    a.base = s.atom
    return Blk(a, s.lo, s.hi)


def b_zip(I, *xs):
    lists = [I.to_items(x) for x in xs]
    return PList(I.ctx, [Unit(t) for t in zip(*lists)])


def b_map(I, f, *xs):
    if len(xs) != 1:
        raise Unsupported("map")
    return map_gen(I, lambda v: I.call(f, [v], {}), xs[0], None, f)


def b_filter(I, f, x):
    return map_gen(I, lambda v: v, x, lambda v: I.call(f, [v], {}) if f is not None else v, f)


def map_gen(I, elt, x, cond, tag):
    import ast as A

    g = A.parse("(_elt(v) for v in _it if _cond(v))" if cond else "(_elt(v) for v in _it)", mode="eval").body
    fr = ip.Frame(I.ctx, {"_elt": Model(lambda I, a, k: elt(*a)), "_it": x, "_cond": Model(lambda I, a, k: cond(*a))})
    return I.e_GeneratorExp(g, fr)


# --------------------------------------------------------------------------
# builtin functions


def b_isinstance(I, v, c):
    c = I.resolve(c)
    if isinstance(c, tuple):
        return any(b_isinstance(I, v, x) for x in c)
    v = I.resolve(v)
    if hasattr(c, "__args__") and not isinstance(c, type):
        return any(b_isinstance(I, v, x) for x in c.__args__)
    if isinstance(c, PList) or not isinstance(c, type):
        raise Unsupported(f"isinstance {c!r}")
    return issubclass_safe(type_of(I, v), c, v)


def issubclass_safe(t, c, v):
    if isinstance(v, (Closure, Bound, Model)):
        return False
    return issubclass(t, c)


def b_len(I, v):
    v = I.resolve(v)
    if isinstance(v, SStr):
        return I.ctx.str_app("strlen", len, v, "int")
    if isinstance(v, PList):
        n = I.len_term(v)
        return n if isinstance(n, int) else SInt(n)
    if isinstance(v, PDict):
        if v.base is None:
            return len(I.dict_segs(v, "keys"))
        raise Unsupported("len of symbolic dict")
    if isinstance(v, PSet):
        if v.base is None and not _has_sym(tuple(v.adds)):
            return len(set(v.adds))
        raise Unsupported("len of symbolic set")
    if isinstance(v, PObj):
        f = I.class_attr(v.cls, "__len__")
        if f is not MISSING:
            return I.call(Bound(f, v), [], {})
    if isinstance(v, SOpq):
        m = I.env.opq_attr.get((v.tag, "__len__"))
        if m is not None:
            return m(I, v)
        raise Unsupported(f"len of {v.tag}")
    try:
        return len(v)
    except TypeError as e:
        raise I.exc(TypeError, str(e))


def b_next(I, it, *d):
    it = I.resolve(it)
    if isinstance(it, GenObj):
        comp = getattr(it, "comp", None)
        if it.done:
            if d:
                return d[0]
            raise I.exc(StopIteration)
        if comp is None:
            nx = getattr(it, "next", None)
            if nx is not None:
                return nx(I, it, *d)

            # a generator that yields nothing: it runs to its end
            def emit(*a):
                raise Unsupported("next() on a generator")

            it.done = True
            v = it.run(ip.Sink(emit, lambda segs: emit() if I.norm_segs(list(segs)) else None))
            if d:
                return d[0]
            raise I.exc(StopIteration, v)
        # generator expression: first element
        tmp = PList(I.ctx)
        I.gen_into(it, tmp)
        it.done = False
        rest = IterObj(I.ctx, tmp.segs)
        it.run = lambda sink: sink.extend(rest.segs)
        it.comp = None
        it.next = lambda I, g, *dd: iter_next(I, rest, *dd)
        return iter_next(I, rest, *d)
    if isinstance(it, IterObj):
        return iter_next(I, it, *d)
    if isinstance(it, (PList,)):
        raise I.exc(TypeError, "list object is not an iterator")
    if isinstance(it, PObj):
        f = I.class_attr(it.cls, "__next__")
        if f is not MISSING:
            try:
                return I.call(Bound(f, it), [], {})
            except ip.PyExc as e:
                if d and issubclass(e.exc.cls, StopIteration):
                    return d[0]
                raise
    raise Unsupported(f"next of {it!r}")


def iter_next(I, it, *d):
    if it.busy:
        if getattr(it, "forced", None):
            return it.forced.pop()
        raise Unsupported("an iterator within a loop over it")
    if it.segs and not isinstance(it.segs[0], Unit) and I.drain is not None and I.drain[:2] == (I.nwrites, len(I.ctx.loops)):
        raise ip.Drain(it)
    I.on_write(it, "segs")
    segs = it.segs
    while segs:
        s = segs[0]
        if isinstance(s, Unit):
            it.segs = segs[1:]
            return s.v
        if I.ctx.branch(as_int_term(s.n) > 0):
            v = s.at(I.ctx, 0)
            if s.rev:
                it.segs = [Blk(s.atom, s.lo, as_int_term(simp(as_int_term(s.hi) - 1)), True)] + segs[1:]
            else:
                it.segs = [Blk(s.atom, as_int_term(simp(as_int_term(s.lo) + 1)), s.hi)] + segs[1:]
            return v
        segs = segs[1:]
    it.segs = []
    if d:
        return d[0]
    raise I.exc(StopIteration)


def b_iter(I, x, *s):
    if s:  # what a call returns again and again, until the sentinel
        v = I.resolve(I.call(x, [], {}))
        m = isinstance(v, SOpq) and I.env.opq_attr.get((v.tag, "repeated"))
        if not m:
            raise Unsupported("iter(callable, sentinel)")
        return IterObj(I.ctx, m(I, v, I.resolve(s[0])))
    x = I.resolve(x)
    if isinstance(x, (GenObj, IterObj)):
        return x
    segs = I.segs_of(x)
    if segs is None:
        raise Unsupported("iter")
    return IterObj(I.ctx, list(segs))


def quantify(I, it, is_any):
    it = I.resolve(it)
    if isinstance(it, GenObj) and getattr(it, "comp", None) is not None:
        e, fr, src = it.comp
        # evaluate over known elements with short-circuiting
        tmp = PList(I.ctx)
        if all(isinstance(s, Unit) for s in (I.segs_of(src) or [None])):
            f2 = ip.Frame(I.ctx, fr.glob, fr, None, "<comp>")
            g = e.generators[0]
            if len(e.generators) == 1:
                conds = []
                for v in I.to_items(src):
                    I.assign(g.target, v, f2)
                    skip = False
                    for c in g.ifs:
                        if not I.truth(I.expr(c, f2)):
                            skip = True
                            break
                    if skip:
                        continue
                    c = I.truth_cond(I.expr(e.elt, f2))
                    if c is is_any:
                        return is_any
                    conds.append(c)
                c = I.disj(conds) if is_any else I.conj(conds)
                return _sb(c)
        I.gen_into(it, tmp)
        it = tmp
    segs = I.segs_of(it)
    if segs is None and isinstance(it, GenObj):
        tmp = PList(I.ctx)
        I.gen_into(it, tmp)
        segs = tmp.segs
    if segs is None:
        raise Unsupported("any/all")
    conds = []
    for s in segs:
        if isinstance(s, Unit):
            conds.append(I.truth_cond(s.v))
            continue
        # symbolic: a witness for the existential side, uninterpreted otherwise
        sk, ts = I.flatten(PList(I.ctx, [s]))
        ts = ts or [z3.IntVal(0)]
        b = ufn(("any:" if is_any else "all:") + sk, *[t.sort() for t in ts], BoolS)(*ts)
        conds.append(b)
    return _sb(I.disj(conds) if is_any else I.conj(conds))


def b_minmax(which):
    def f(I, *a, **k):
        if k:
            raise Unsupported("min/max key")
        xs = list(a) if len(a) > 1 else I.to_items(a[0])
        xs = [I.resolve(x) for x in xs]
        if not any(isinstance(x, Sym) for x in xs):
            try:
                return which(xs)
            except ValueError as e:
                raise I.exc(ValueError, str(e))
        t = I.int_term(xs[0])
        for x in xs[1:]:
            u = I.int_term(x)
            t = z3.If(u < t, u, t) if which is min else z3.If(u > t, u, t)
        return SInt(t)
    return f


def b_sum(I, it, start=0):
    acc = start
    for x in I.to_items(it):
        acc = I.binop(__import__("ast").Add(), acc, x)
    return acc


def b_sorted(I, it, **k):
    xs = I.to_items(it)
    if k or any(_has_sym(x) for x in xs):
        raise Unsupported("sorted")
    return PList(I.ctx, [Unit(x) for x in sorted(xs)])


def b_hash(I, v):
    v = I.resolve(v)
    if isinstance(v, PObj):
        f = I.class_attr(v.cls, "__hash__")
        if f is not MISSING and f is not None and I.env.interpretable(f):
            return I.call(Bound(f, v), [], {})
    sk, ts = I.flatten(v)
    ts = ts or [z3.IntVal(0)]
    return SInt(ufn("hash:" + sk, *[t.sort() for t in ts], IntS)(*ts))


def b_getattr(I, o, n, *d):
    n = I.resolve(n)
    if isinstance(n, SStr):
        raise Unsupported("getattr with symbolic name")
    return I.getattr(o, n, *d)


def b_hasattr(I, o, n):
    return I.getattr(o, n, None) is not None


def re_sub(I, p, repl, s):
    s = I.resolve(s)
    repl = I.resolve(repl)
    if isinstance(p, str):
        pat = p
    else:
        pat = p.pattern
    if isinstance(s, str) and isinstance(repl, str):
        return re.sub(p, repl, s)
    if not isinstance(repl, str):
        raise Unsupported("re.sub with callable")
    return I.ctx.str_app(f"re.sub[{pat!r},{repl!r}]", lambda x: re.sub(p, repl, x), s, "str")


def b_re(kind):
    def f(I, p, s, *flags):
        p = I.resolve(p)
        if isinstance(p, Sym):
            raise Unsupported("symbolic pattern")
        if isinstance(p, str):
            p = re.compile(p, *flags)
        return regex_call(I, p, kind, s)
    return f


def b_copy(I, o):
    o = I.resolve(o)
    if isinstance(o, PObj):
        f = I.class_attr(o.cls, "__copy__")
        if f is not MISSING:
            return I.call(Bound(f, o), [], {})
        n = PObj(I.ctx, o.cls)
        n.attrs = dict(o.attrs)
        return n
    if isinstance(o, PList):
        return PList(I.ctx, list(o.segs))
    if isinstance(o, PDict):
        return I.copy_dict(o)
    if isinstance(o, SOpq):
        m = I.env.opq_attr.get((o.tag, "__copy__"))
        if m is not None:
            return m(I, o)
    raise Unsupported(f"copy of {o!r}")


def b_deepcopy(I, o):
    o = I.resolve(o)
    if isinstance(o, SOpq):
        m = I.env.opq_attr.get((o.tag, "__deepcopy__"))
        if m is not None:
            return m(I, o)
    raise Unsupported("deepcopy")


def b_dc_replace(I, o, **k):
    n = PObj(I.ctx, o.cls)
    n.attrs = dict(o.attrs)
    n.attrs.update(k)
    pi = I.class_attr(o.cls, "__post_init__")
    if pi is not MISSING:
        I.call(Bound(pi, n), [], {})
    return n


def b_dc_fields(I, o):
    o = I.resolve(o)
    return tuple(dataclasses.fields(o.cls if isinstance(o, PObj) else o))


def b_abs(I, x):
    x = I.resolve(x)
    if isinstance(x, SInt):
        return SInt(z3.If(x.t < 0, -x.t, x.t))
    return abs(x)


BUILTINS = {
    isinstance: b_isinstance,
    issubclass: lambda I, a, b: issubclass(a, b),
    len: b_len,
    next: b_next,
    iter: b_iter,
    any: lambda I, it: quantify(I, it, True),
    all: lambda I, it: quantify(I, it, False),
    min: b_minmax(min),
    max: b_minmax(max),
    sum: b_sum,
    sorted: b_sorted,
    hash: b_hash,
    getattr: b_getattr,
    hasattr: b_hasattr,
    setattr: lambda I, o, n, v: I.setattr(o, n, v),
    repr: lambda I, x: I.repr_of(x),
    callable: lambda I, x: isinstance(x, (Closure, Bound, Model)) or callable(x),
    abs: b_abs,
    id: lambda I, x: _idof(I, x),
    print: lambda I, *a, **k: None,
    typing.cast: lambda I, t, v: v,
    re.sub: re_sub,
    re.match: b_re("match"),
    re.search: b_re("search"),
    re.fullmatch: b_re("fullmatch"),
    re.compile: lambda I, *a: re.compile(*_conc(I, a, "re.compile")),
    copy.copy: b_copy,
    copy.deepcopy: b_deepcopy,
    dataclasses.replace: b_dc_replace,
    dataclasses.fields: b_dc_fields,
    object.__setattr__: lambda I, o, n, v: _raw_setattr(I, o, n, v),
    ord: lambda I, x: ord(*_conc(I, [x], "ord")),
    chr: lambda I, x: chr(*_conc(I, [x], "chr")),
    breakpoint: lambda I: (_ for _ in ()).throw(I.exc(RuntimeError, "breakpoint")),
}


def _raw_setattr(I, o, n, v):
    I.on_write(o, n)
    o.attrs[n] = v


def _idof(I, x):
    x = I.resolve(x)
    if isinstance(x, SOpq):
        return SInt(ufn("id", ObjS, IntS)(x.t))
    if isinstance(x, Mut):
        return 10**9 + x.serial
    return id(x)


def builtin(I, fn, args, kw):
    try:
        f = BUILTINS.get(fn)
    except TypeError:
        f = None
    if f is not None:
        return f(I, *args, **kw)
    # str.lower etc. as unbound method
    if getattr(fn, "__objclass__", None) is str or (hasattr(fn, "__objclass__") and fn.__objclass__ in (str, list, dict, set)):
        m = method(I, I.resolve(args[0]), fn.__name__)
        if m is not None:
            return m.fn(I, list(args[1:]), kw)
    # bound builtin method of a native object (e.g. "x".join)
    self_ = getattr(fn, "__self__", None)
    if self_ is not None and isinstance(self_, (str, list, dict, set, frozenset, re.Pattern)):
        m = method(I, self_, fn.__name__)
        if m is not None:
            return m.fn(I, list(args), kw)
    if getattr(fn, "__module__", "") == "typing":
        return args[-1] if args else None
    key = I.env.fn_key(fn)
    if self_ is not None and isinstance(self_, re.Match):
        a = _conc(I, args, "match")
        return fn(*a)
    raise Unsupported(f"call of {key or fn!r}")
