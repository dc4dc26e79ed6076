#!/opt/venv/bin/python -B
"""Tests pyvc itself: functions are verified against themselves, and their
mutants against them.  Every original has to be accepted; a mutant which is
accepted must not differ from the original under CPython on random arguments."""
import ast
import copy
import concurrent.futures
import importlib
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import types
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.environ.get("SPEX_REPO", "/repo") + "/src")
sys.setrecursionlimit(20000)
WORK = tempfile.mkdtemp(prefix="selftest")
os.chdir(WORK)
PKG = os.path.join(WORK, "pyvc_demo")
os.mkdir(PKG)
open(os.path.join(PKG, "__init__.py"), "w").close()
sys.path.insert(0, WORK)
SRC = open(os.path.join(HERE, "tools", "selftest_cases.py")).read()
shutil.copy(os.path.join(HERE, "tools", "selftest_cases.py"), os.path.join(PKG, "cases.py"))

import vspec.world  # noqa: E402,F401  models of the library
from pyvc.core import T  # noqa: E402
from pyvc.verify import Contract, summary, verify  # noqa: E402

cases = importlib.import_module("pyvc_demo.cases")
TREE = ast.parse(SRC)
FUN = {n.name: n for n in TREE.body if isinstance(n, ast.FunctionDef)}


# mutants ----------------------------------------------------------------------
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.LtE: [ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult]}
NAMES = {"append": ["pop"], "any": ["all"], "all": ["any"], "max": ["min"], "min": ["max"], "ValueError": ["KeyError"], "KeyError": ["ValueError", "Exception"], "upper": ["lower"], "strip": ["lstrip"],
         "get": ["pop"], "startswith": ["endswith"], "setdefault": ["__setitem__"]}


def sites(node):
    """(description, change) for every mutation of the function, changes act on a copy by position"""
    out = []
    for i, n in enumerate(ast.walk(node)):
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for c in CMP.get(type(op), []):
                    out.append((i, lambda m, j=j, c=c: m.ops.__setitem__(j, c())))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for c in BIN.get(type(n.op), []):
                out.append((i, lambda m, c=c: setattr(m, "op", c())))
            if isinstance(n, ast.BinOp):
                out.append((i, lambda m: (lambda l, r: (setattr(m, "left", r), setattr(m, "right", l)))(m.left, m.right)))
        elif isinstance(n, ast.BoolOp):
            out.append((i, lambda m: setattr(m, "op", ast.And() if isinstance(m.op, ast.Or) else ast.Or())))
            out.append((i, lambda m: m.values.pop()))
            out.append((i, lambda m: m.values.reverse()))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool) or n.value is None:
                out.append((i, lambda m: setattr(m, "value", {True: False, False: True, None: 0}[m.value])))
            elif isinstance(n.value, int):
                for d in (1, -1):
                    out.append((i, lambda m, d=d: setattr(m, "value", m.value + d)))
            elif isinstance(n.value, str):
                out.append((i, lambda m: setattr(m, "value", "x" if m.value != "x" else "")))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((i, lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
            if getattr(n, "orelse", None) and not isinstance(n, ast.IfExp):
                out.append((i, lambda m: setattr(m, "orelse", [])))
        elif isinstance(n, ast.comprehension) and n.ifs:
            out.append((i, lambda m: setattr(m, "ifs", [])))
        elif isinstance(n, ast.Name) and n.id in NAMES:
            for c in NAMES[n.id]:
                out.append((i, lambda m, c=c: setattr(m, "id", c)))
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            for c in NAMES[n.attr]:
                out.append((i, lambda m, c=c: setattr(m, "attr", c)))
        elif isinstance(n, ast.Tuple) and len(n.elts) == 2:
            out.append((i, lambda m: m.elts.reverse()))
        elif isinstance(n, ast.Slice):
            for f in ("lower", "upper"):
                if getattr(n, f) is not None:
                    out.append((i, lambda m, f=f: setattr(m, f, None)))
        if isinstance(n, ast.Try):
            out.append((i, lambda m: m.handlers.pop(0) if len(m.handlers) > 1 else m.handlers.__setitem__(0, ast.ExceptHandler(ast.Name("Exception", ast.Load()), None, [ast.Pass()])) if m.handlers else None))
            out.append((i, lambda m: setattr(m, "finalbody", []) if m.handlers else None))
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            for j, s in enumerate(b):
                out.append((i, lambda m, f=f, j=j: getattr(m, f).__setitem__(j, ast.Pass())))
                if isinstance(s, ast.Break):
                    out.append((i, lambda m, f=f, j=j: getattr(m, f).__setitem__(j, ast.Continue())))
                elif isinstance(s, ast.Continue):
                    out.append((i, lambda m, f=f, j=j: getattr(m, f).__setitem__(j, ast.Break())))
                else:
                    out.append((i, lambda m, f=f, j=j: getattr(m, f).insert(j, copy.deepcopy(getattr(m, f)[j]))))
                if j + 1 < len(b):
                    out.append((i, lambda m, f=f, j=j: (lambda l: l.__setitem__(slice(j, j + 2), [l[j + 1], l[j]]))(getattr(m, f))))
    return out


def mutants(fn):
    seen = {ast.unparse(fn)}
    for i, change in sites(fn):
        m = copy.deepcopy(fn)
        change(list(ast.walk(m))[i])
        ast.fix_missing_locations(m)
        m.decorator_list = []
        try:
            t = ast.unparse(m)
            compile(t, "m", "exec")
        except Exception:  # noqa: BLE001 not a program
            continue
        if t not in seen:
            seen.add(t)
            yield t


# arguments -----------------------------------------------------------------------
POOL = ["", "x", "y", "a", "xa", "a:b", "y_z", " x ", "aXy", "x:", "b", "_"]


def arbitrary(r, s):
    if isinstance(s, T.Prim):
        return {"int": lambda: r.choice([-3, -2, -1, 0, 0, 1, 1, 2, 2, 3, 4, 5, 7, 11]), "str": lambda: r.choice(POOL), "bool": lambda: r.random() < 0.5, "none": lambda: None}[s.kind]()
    if isinstance(s, T.List):
        return [arbitrary(r, s.elem) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 4]))]
    if isinstance(s, T.Tuple):
        return tuple(arbitrary(r, e) for e in s.elems)
    if isinstance(s, T.Union):
        return arbitrary(r, r.choice(s.alts))
    if isinstance(s, T.Rec):
        return {k: arbitrary(r, v) for k, v, opt in s.keys if not opt or r.random() < 0.5}
    raise AssertionError(s)


class Endless(BaseException):
    pass


def late(*_):
    raise Endless()


signal.signal(signal.SIGALRM, late)
warnings.simplefilter("ignore")


def observed(f, args):
    args = copy.deepcopy(args)
    ys = []
    signal.setitimer(signal.ITIMER_REAL, 0.3, 0.1)
    try:
        v = f(*args)
        if isinstance(v, types.GeneratorType):
            while True:
                try:
                    ys.append(next(v))
                except StopIteration as e:
                    v = e.value
                    break
        return ("return", v, ys, args)
    except (Exception, Endless) as e:  # noqa: BLE001 what it does
        return ("raise", e, ys, args)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def symbolic(B, s, n):
    if isinstance(s, T.List):
        return B.seq(s.elem, n)
    v = B(s, n)
    if isinstance(s, T.Rec):
        v.foreign = False
    return v


def differ(a, b):
    if a[0] != b[0]:
        return True
    if a[0] == "raise":
        return not isinstance(a[1], type(b[1])) or repr(a[2:]) != repr(b[2:])
    return repr(a[1:]) != repr(b[1:])


def one(name):
    sys.setrecursionlimit(20000)
    shapes = cases.ARGS[name]
    t0 = time.time()
    bad, stats = 0, {"functions": 0, "mutants": 0, "refuted": 0, "unsupported": 0, "accepted": 0, "spurious": 0}
    if True:
        fn = FUN[name]
        texts = [ast.unparse(ast.FunctionDef(**{**{k: getattr(fn, k) for k in fn._fields}, "decorator_list": []}, lineno=1))] + list(mutants(fn))
        mod = f"m_{name}"
        head = "from pyvc_demo.cases import *\n"
        with open(os.path.join(PKG, mod + ".py"), "w") as f:
            f.write(head + "\n\n".join(t.replace(f"def {name}(", f"def {name}__{k}(", 1) for k, t in enumerate(texts)) + "\n")
        m = importlib.import_module("pyvc_demo." + mod)
        original = getattr(m, f"{name}__0")
        stats["functions"] += 1
        for k, t in enumerate(texts):
            c = Contract(f"pyvc_demo.{mod}:{name}__{k}", cases.SPEC.get(name, original), lambda B: ([symbolic(B, s, f"a{j}") for j, s in enumerate(shapes)], {}), folds=cases.FOLDS.get(name), budget=8.0, use=False)
            try:
                ex = verify(c)
                res = summary(ex)
            except Exception as e:  # noqa: BLE001 outside of the subset
                res = {"unsupported": 1, "why": repr(e)[:200]}
                ex = None
            ok = set(res) == {"discharged"}
            if k == 0:
                if not ok:
                    bad += 1
                    print(f"NOT ACCEPTED {name} {res}", [(o.status, o.name, str(o.detail)[:300]) for o in (ex.obligations if ex else []) if o.status != "discharged"][:3])
                continue
            stats["mutants"] += 1
            r = random.Random(f"{name}{k}")
            f = getattr(m, f"{name}__{k}")
            cex = None
            for _ in range(400):
                args = [arbitrary(r, s) for s in shapes]
                if differ(observed(f, args), observed(original, args)):
                    cex = args
                    break
            kind = "accepted" if ok else "refuted" if "failed" in res else "unsupported"
            stats[kind] += 1
            if ok and cex is not None:
                bad += 1
                print(f"UNSOUND {name} on {cex}: {observed(f, cex)[:3]} instead of {observed(original, cex)[:3]}\n{t}\n")
            if kind == "refuted" and cex is None:
                stats["spurious"] += 1
                if os.environ.get("SHOW"):
                    print(f"SPURIOUS {name} {[(o.name, str(o.detail)[:200]) for o in ex.obligations if o.status == 'failed'][:2]}\n{t}\n")
            if kind == "unsupported" and os.environ.get("SHOW"):
                print(f"UNSUPPORTED {name} {res.get('why') or [str(o.detail)[:120] for o in ex.obligations if o.status != 'discharged'][:1]}\n")
    print(f"{name}: {stats['mutants']} mutants, {time.time() - t0:.0f} s", file=sys.stderr)
    sys.stdout.flush()
    return bad, stats


def main():
    names = [n for n in cases.ARGS if n in sys.argv[1:] or not sys.argv[1:]]
    with concurrent.futures.ProcessPoolExecutor(int(os.environ.get("JOBS", "6"))) as ex:
        rs = list(ex.map(one, names))
    print({k: sum(s[k] for _, s in rs) for k in rs[0][1]})
    return 1 if any(b for b, _ in rs) else 0


if __name__ == "__main__":
    try:
        rc = main()
    finally:
        os.chdir("/")
        shutil.rmtree(WORK)
    sys.exit(rc)
