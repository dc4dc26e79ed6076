#!/opt/venv/bin/python -B
"""Tests what pyvc assumes of strings: small functions of strings are run
symbolically; for random texts the path whose branches they take is found by
evaluating its conditions, then every assumption of that path has to be true and
the result has to be CPython's."""
import importlib
import itertools
import os
import random
import re
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.environ.get("SPEX_REPO", "/repo") + "/src")
sys.setrecursionlimit(20000)
WORK = tempfile.mkdtemp(prefix="laws")
os.chdir(WORK)
sys.path.insert(0, WORK)

import z3  # noqa: E402
import vspec.world  # noqa: E402,F401
from pyvc.core import Explorer, PList, SBool, SInt, SStr, Unit, as_int_term, lit_id, original  # noqa: E402
from pyvc.verify import Builder, Contract, Env, VInterp, run_side  # noqa: E402

MAPS = ['.strip()', '.lower()', '.upper()', '.lstrip()', '.rstrip()', '.lstrip(" ")', '.rstrip(".")', '.replace("a", "b")', '.replace("\\n", " ")', '.replace(" ", "")',
        '.split(":", 1)[0]', '.partition(":")[2]', '[:1]', '[:4]', '.strip().lower()']
ASKS = ['%s == ""', '":" in %s', '%s.startswith("note")', '%s.startswith("no")', '%s[:4] == "note"', '%s.find(":")', '%s.count("a")', 'len(%s)', '%s == "NOTE"', '%s in {"A", "note"}',
        '%s.isdigit()', '%s.endswith(".")', '%s.endswith("..")', '%s.upper() == "NOTE"', '%s.lower() == "note"', 'len(%s.split(":", 1))', '"_".join(%s.split(" "))', '%s.split(":")[0]',
        '"".join(%s.split(":"))', '%s.rfind("a")', '%s.isspace()', '"a" in %s', '%s[0]', '%s.index("a")', '%s.rpartition("_")[0]', '%s.split("_")[0]', '%s.split("_", 1)[0]', '%s.casefold() == "note"',
        '%s.partition("_")[0]', '%s.lstrip().rstrip()', '%s[0:1]', 'len(%s.split())', '%s.lower().startswith("note")', '%s < "b"', '%s + "x" == "x"', 'bool(%s)']


def cases():
    out = []
    for m in [""] + MAPS:
        for a, b in zip(ASKS, ASKS[7:] + ASKS[:7]):
            out.append(f"({a % ('s' + m)}, {b % ('s' + m)})")
    for m, n in itertools.product(MAPS, MAPS):
        out.append(f"(s{m}{n}, s{n}{m} == s{m}{n}, s{m} == s{n})")
    for a, b in itertools.combinations(ASKS, 2):
        out.append(f"({a % 's'}, {b % 's'})")
    return out


class Skip(Exception):
    pass


def evaluate(t, env, path, memo):
    k = t.get_id()
    if k not in memo:
        memo[k] = _evaluate(t, env, path, memo)
    return memo[k]


def _evaluate(t, env, path, memo):
    go = lambda i: evaluate(t.arg(i), env, path, memo)  # noqa: E731
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t) or z3.is_false(t):
        return z3.is_true(t)
    d, k = t.decl(), t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        name = original(d.name())
        if t.num_args() == 0:
            if name in env:
                return env[name]
            raise Skip(name)
        if name == "strlen":
            return len(go(0))
        if name == "strid":
            return lit_id(go(0))
        for fname, pyfn in env["apps"]:
            if fname == name and t.num_args() == 1:
                return pyfn(go(0))
        if m := re.fullmatch(r"split\[(.*)\](@|#len)", name, re.S):
            parts = go(0).split(eval(m.group(1)))
            i = go(1) if m.group(2) == "@" else 0
            if m.group(2) == "@" and not 0 <= i < len(parts):
                raise Skip(name)
            return parts[i] if m.group(2) == "@" else len(parts)
        if name == "words@":
            parts, i = go(0).split(), go(1)
            if not 0 <= i < len(parts):
                raise Skip(name)
            return parts[i]
        if name == "contains":
            return go(1) in go(0)
        raise Skip(name)
    n = t.num_args()
    if k == z3.Z3_OP_AND:
        return all(go(i) for i in range(n))
    if k == z3.Z3_OP_OR:
        return any(go(i) for i in range(n))
    if k == z3.Z3_OP_NOT:
        return not go(0)
    if k == z3.Z3_OP_IMPLIES:
        return (not go(0)) or go(1)
    if k == z3.Z3_OP_ITE:
        return go(1) if go(0) else go(2)
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
        return go(0) == go(1)
    if k == z3.Z3_OP_DISTINCT:
        return len({go(i) for i in range(n)}) == n
    two = {z3.Z3_OP_LE: lambda a, b: a <= b, z3.Z3_OP_LT: lambda a, b: a < b, z3.Z3_OP_GE: lambda a, b: a >= b, z3.Z3_OP_GT: lambda a, b: a > b}
    if k in two:
        return two[k](go(0), go(1))
    if k == z3.Z3_OP_ADD:
        return sum(go(i) for i in range(n))
    if k == z3.Z3_OP_SUB:
        return go(0) - sum(go(i) for i in range(1, n))
    if k == z3.Z3_OP_UMINUS:
        return -go(0)
    if k == z3.Z3_OP_MUL:
        r = 1
        for i in range(n):
            r *= go(i)
        return r
    raise Skip(str(d))


def concrete(v, ev):
    if isinstance(v, SStr):
        return ev(v.t)
    if isinstance(v, (SInt, SBool)):
        return ev(v.t)
    if isinstance(v, tuple):
        return tuple(concrete(x, ev) for x in v)
    if isinstance(v, PList) and all(isinstance(x, Unit) for x in v.segs):
        return [concrete(x.v, ev) for x in v.segs]
    if isinstance(v, (str, int, bool, type(None))):
        return v
    raise Skip(repr(v))


ALPHABET = list(" \t\naAbB:._xXnNoOtTeE1") + ["\u00df", "\u0130", "\u017f", "\u03a3", "\u03c2", "\u2026", "\u00a0", "\ufb01", "\u0149", "\x1f", "\u0345"]


def text(r):
    x = r.random()
    if x < 0.3:
        s = r.choice(["note", "NOTE", "Note", "no", "A", "a:b", "note: x", "..", "a.", "x_y_z", ":", " ", "", "not\u1d31", "NOTE\u00df", "a b", "a_b:c", "notes:", "\u2026"])
        return r.choice(["", " ", ".", "_"]) * (x < 0.12) + s + r.choice(["", " ", ".", "\n"]) * (x < 0.18)
    return "".join(r.choice(ALPHABET) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5, 7])))


def main():
    only = sys.argv[1:]
    todo = cases()
    src = "".join(f"def f{i}(s):\n    return {c}\n\n\n" for i, c in enumerate(todo))
    os.mkdir("pyvc_demo")
    open("pyvc_demo/__init__.py", "w").close()
    open("pyvc_demo/laws.py", "w").write(src)
    mod = importlib.import_module("pyvc_demo.laws")
    r = random.Random(1)
    texts = [text(r) for _ in range(120)]
    ran = unsupported = judged = skipped = bad = 0
    laws = set()
    for i, c in enumerate(todo):
        if only and str(i) not in only:
            continue
        fn = getattr(mod, f"f{i}")
        con = Contract(f"pyvc_demo.laws:f{i}", fn, lambda B: ([B.str("s")], {}), props=[], use=False)
        ex = Explorer(f"law{i}", 30, 4000, False)
        got = []

        def one(path):
            env = Env(con, True, False, 0)
            I = VInterp(path, env)
            ys, res, eff = run_side(I, fn, con.args(Builder(I))[0], {})
            got.append((path, res))

        ex.run(one)
        if any(o.name.endswith((":subset", ":budget")) for o in ex.obligations):
            unsupported += 1
            if only:
                print(ex.obligations)
            continue
        ran += 1
        for s in texts:
            found = False
            for path, res in got:
                env = {original(t.decl().name()): l for l, t in path.lits.items()}
                env.update({"s": s, "apps": [(a[0], a[1]) for a in path.apps]})
                memo = {}
                try:
                    if not all(evaluate(b, env, path, memo) for b in path.branch_conds if not isinstance(b, bool)):
                        continue
                except Skip:
                    skipped += 1
                    continue
                except IndexError:
                    continue
                found = True
                for a in path.pc:
                    try:
                        ok = evaluate(a, env, path, memo)
                    except (Skip, IndexError):
                        skipped += 1
                        continue
                    judged += 1
                    laws.add(a.get_id())
                    if not ok:
                        bad += 1
                        print("FALSE", c, repr(s), str(a)[:300])
                try:
                    want = ("return", fn(s))
                except Exception as e:  # noqa: BLE001
                    want = ("raise", type(e))
                try:
                    have = (res[0], concrete(res[1], lambda t: evaluate(t, env, path, memo)) if res[0] == "return" else res[1])
                except (Skip, IndexError):
                    skipped += 1
                    continue
                if have != want:
                    bad += 1
                    print("WRONG", c, repr(s), have, want)
            if not found:
                unpath = True  # noqa: F841 a path of which some condition could not be evaluated
            if bad > 20:
                break
        if bad > 20:
            break
    print({"functions": ran, "unsupported": unsupported, "assumptions judged": judged, "different": len(laws), "not evaluated": skipped, "false": bad})
    os.chdir("/")
    shutil.rmtree(WORK)
    return 1 if bad else 0


sys.exit(main())
