"""Functions for tools/selftest.py: each is verified against itself (and must be
accepted) and its mutants against it (those which are accepted must do the same
under CPython).  ARGS: shapes of the arguments; SPEC: a specification by folds
for functions with loops which no inferred invariant describes."""
from typing import Any, Dict

from pyvc.core import T
from vspec.base import Fold, fold

INTS = T.List(T.int)
STRS = T.List(T.str)
REC = T.rec(("b",), a=T.int, b=T.str)
ARGS: Dict[str, Any] = {}
SPEC: Dict[str, Any] = {}
FOLDS: Dict[str, Any] = {}


def case(*shapes, folds=None):
    def reg(f):
        ARGS[f.__name__] = shapes
        if folds:
            FOLDS[f.__name__] = folds
        return f
    return reg


def spec(f):
    SPEC[f.__name__.removesuffix("_spec")] = f
    return f


@case(T.int, T.int, T.int)
def clamp(x, lo, hi):
    if x < lo:
        return lo
    elif x > hi:
        return hi
    return x


@case(T.int, T.int)
def chained(a, b):
    if 0 <= a < b <= 10:
        return (a, b)
    return (b, a) if a != b and b > 0 else None


@case(T.opt(T.int), T.int)
def values(a, b):
    c = a or b
    d = a and b
    return [c, d, a is None, not b, a == b]


@case(T.str, T.str)
def strings(a, b):
    if a == b:
        return a.upper()
    if a.startswith("x"):
        return a + b
    if not a:
        return f"<{b}>"
    if "y" in b:
        return b.strip().lower()
    return a[1:] + b[:1]


@case(T.str)
def splitting(a):
    k, _, v = a.partition(":")
    if v == "":
        return [k]
    p = a.split("_")
    return [p[0], v, k.replace(" ", "")]


@case(INTS)
def mapped(l):
    return [x + 1 for x in l if x > 0]


@case(INTS)
def appended(l):
    out = []
    for x in l:
        if x == 0:
            continue
        out.append(x * 2)
    return out


@case(INTS)
def two_lists(l):
    pos, neg = [], []
    for x in l:
        if x < 0:
            neg.append(-x)
        else:
            pos.append((x, x - 1))
    return pos, neg


def first_step(st, x):
    if x > 1:
        return ("STOP", {"r": x})
    return st


FIRST = Fold("first", {"r": T.opt(T.int)}, lambda: {"r": None}, first_step)


@spec
def first_spec(l):
    st = fold(FIRST, l)
    return st["r"] if st["stopped"] else -1


@case(INTS, folds=lambda I, B, a: [(a[0], FIRST)])
def first(l):
    for x in l:
        if x > 1:
            return x
    return -1


@case(INTS, folds=lambda I, B, a: [(a[0], FIRST)])
def first_else(l):
    r = None
    for x in l:
        if x > 1:
            r = x
            break
    else:
        r = -1
    return r


SPEC["first_else"] = first_spec


def total_step(st, x):
    return {"n": st["n"] + x, "last": x, "c": st["c"] + (1 if x > 0 else 0)}


TOTAL = Fold("total", {"n": T.int, "last": T.opt(T.int), "c": T.int}, lambda: {"n": 0, "last": None, "c": 0}, total_step)


@spec
def total_spec(l):
    st = fold(TOTAL, l)
    return (st["n"], st["last"], st["c"])


@case(INTS, folds=lambda I, B, a: [(a[0], TOTAL)])
def total(l):
    n, last, count = 0, None, 0
    for x in l:
        n += x
        last = x
        if x > 0:
            count += 1
    return (n, last, count)


def runs_step(st, x):
    if st["prev"] is not None and x <= st["prev"]:
        st["out"].append((st["prev"], x))
    st["prev"] = x
    return st


RUNS = Fold("runs", {"prev": T.opt(T.int), "out": T.List(T.Tuple((T.int, T.int)))}, lambda: {"prev": None, "out": []}, runs_step)


@spec
def descents_spec(l):
    return fold(RUNS, l)["out"]


@case(INTS, folds=lambda I, B, a: [(a[0], RUNS)])
def descents(l):
    p, out = None, []
    for x in l:
        if p is not None and x <= p:
            out.append((p, x))
        p = x
    return out


@case(REC, T.int)
def records(r, n):
    if "b" in r:
        r["c"] = r["b"]
    v = r.get("b", "none")
    r["a"] += n
    d = {"k": v, "n": r["a"]}
    d.update({"m": n})
    if n > 3:
        d.pop("m")
    d.setdefault("n", 7)
    return d


@case(REC)
def deletes(r):
    try:
        x = r["b"]
        del r["b"]
    except KeyError:
        x = None
    return x, len(r), "a" in r


@case(T.int, T.int)
def handled(a, b):
    log = []
    try:
        if a < 0:
            raise ValueError("negative")
        if a > b:
            raise KeyError(a)
        log.append("body")
        if a == b:
            return log
    except ValueError as e:
        log.append("value")
        if b == 0:
            raise
    except KeyError:
        log.append("key")
    else:
        log.append("else")
    finally:
        log.append("finally")
    return log


@case(T.int)
def nested_try(a):
    out = []
    try:
        try:
            if a > 0:
                raise ValueError(a)
            out.append(1)
        finally:
            out.append(2)
            if a == 2:
                raise KeyError()
    except ValueError:
        out.append(3)
    return out


@case(INTS)
def generator(l):
    yield 0
    for x in l:
        if x > 0:
            yield x
    yield from l
    yield len(l)


@case(T.int)
def delegated(n):
    def gen(k):
        yield k
        if k > 1:
            return k + 2
        yield -k

    r = yield from gen(n)
    s = yield from gen(1)
    yield (r, s)
    return r


@case(T.int)
def closures(n):
    k = 0

    def inc(by=1):
        nonlocal k
        k += by
        return k

    inc()
    inc(n)
    f = lambda x, y=n: x + y + k
    return f(1), inc(0), f(2, 3)


@case(INTS, T.int)
def aliases(l, n):
    m = l
    m.append(n)
    k = list(l)
    k.append(1)
    return [len(l), len(k), l[-1], k[-2]]


class Counter:
    base = 1

    def __init__(self, n, names=()):
        self.n = n
        self.log = []
        self.names = list(names)

    def add(self, x):
        if x > self.base:
            self.log.append(x)
        self.n += x
        return self

    @property
    def double(self):
        return self.n * 2


class Special(Counter):
    base = 2

    def add(self, x):
        super().add(x + 1)
        return self


@case(T.int, T.int)
def objects(a, b):
    c = Counter(a).add(b)
    d = Special(b)
    d.add(a).add(1)
    return c.n, c.log, d.double, d.log, isinstance(c, Special), Special.base


@case(T.int, T.int, T.int)
def unpacking(a, b, c):
    x, *rest = [a, b, c]
    (p, q), r = (b, x), rest[-1]
    p, q = q, p
    return p, q, r, rest[::-1], [a, b, c][1:], sum([a, b, c]), max(a, b), min(b, c)


@case(T.int, T.str)
def comprehensions(n, s):
    d = {k: v for k, v in [("a", n), ("b", 2)] if v != 1}
    t = [(i, c) for i, c in enumerate([s, "z"], start=n)]
    z = [x + y for x, y in zip([1, 2], [n, n])]
    return d, t, z, any(x > 2 for x in z), all(x > 1 for x in z), sorted([3, 1, 2])


@case(T.str, T.str)
def sets(a, b):
    s = {a, "x"}
    s.add(b)
    return a in s, "y" in s, b in {"p", "q"}, a == b


@case(INTS)
def iterators(l):
    it = iter(l)
    head = next(it, None)
    tail = [x for x in it]
    return head, tail


@case(INTS)
def drained(l):
    it = iter(l)
    out = []
    while True:
        try:
            x = next(it)
        except StopIteration:
            break
        if x > 0:
            out.append(x)
    out.append(0)
    return out


@case(STRS)
def walrus(l):
    it = iter(l)
    out = []
    while (s := next(it, None)) is not None:
        out.append(s.strip())
    return out


@case(T.int)
def countdown(n):
    i, out = 3, []
    while i > 0:
        i -= 1
        if i == n:
            continue
        out.append(i)
        if i + n == 5:
            break
    else:
        out.append(-1)
    return out


class Quiet:
    def __init__(self, swallow):
        self.swallow, self.log = swallow, ["in"]

    def __enter__(self):
        return self.log

    def __exit__(self, cls, e, tb):
        self.log.append("out" if cls is None else "failed")
        return self.swallow and cls is not None


@case(T.bool, T.int)
def managed(swallow, n):
    q = Quiet(swallow)
    with q as log:
        log.append(n)
        if n > 2:
            raise ValueError("n")
        if n == 0:
            return q.log
    q.log.append("after")
    return q.log


@case(STRS, T.str)
def joined(l, sep):
    return "-".join([x for x in l if x]) + sep


@case(T.opt(T.Tuple((T.int, T.int))), T.int)
def optional(p, d):
    if p is None:
        p = (d, d + 1)
    a, b = p
    return b - a if b > a else a - b


@case(INTS, T.int)
def indexes(l, n):
    if not l:
        return None
    x = l[0]
    y = l[-1]
    if len(l) > n:
        return x + y
    return [len(l), x]


@case(T.int, T.int)
def arithmetic(a, b):
    q = a * 2 + b
    if q % 2 == 0:
        q = q // 2
    else:
        q = abs(q)
    return q - 1, -a, a == 2 * b


@case(STRS, INTS)
def any_all(l, k):
    return any(x == "a" for x in l), all(x > 0 for x in k), [x for x in l if x != ""] == [], len(k) == 0


def keyed_step(st, k):
    if k in st["seen"]:
        st["dup"].append(k)
    st["seen"].add(k)
    return st


KEYED = Fold("keyed", {"seen": T.Set(), "dup": STRS}, lambda: {"seen": set(), "dup": []}, keyed_step)


@spec
def duplicates_spec(l):
    return fold(KEYED, l)["dup"]


@case(STRS, folds=lambda I, B, a: [(a[0], KEYED)])
def duplicates(l):
    seen, out = set(), []
    for s in l:
        if s in seen:
            out.append(s)
        seen.add(s)
    return out


def longest_step(st, s):
    return {"b": s if st["b"] is None or len(s) > len(st["b"]) else st["b"]}


LONGEST = Fold("longest", {"b": T.opt(T.str)}, lambda: {"b": None}, longest_step)


@spec
def longest_spec(l):
    return fold(LONGEST, l)["b"]


@case(STRS, folds=lambda I, B, a: [(a[0], LONGEST)])
def longest(l):
    best = None
    for s in l:
        if best is None or len(s) > len(best):
            best = s
    return best


@case(INTS, INTS)
def joined_lists(a, b):
    c = a + b
    d = []
    d.extend(b)
    d.append(1)
    d += a
    return len(c), d, [x for x in c if x == 0]
