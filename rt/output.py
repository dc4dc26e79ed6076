"""Runtime contracts of the outer parts of the second stage: report filtering,
output file, schema, meta data, command line (bounded)."""
import contextlib
import io
import json
import os
import random
import shutil
import sys
from pathlib import Path

from . import gen, real, stage2
from .stage2 import Ctx, J

NAMES = ("doc", "a b", "NVM 2.0c 2022.10.04 Ratified", "x.y", "ü–1", "con", "a.html", "json", "..x", "-x")


def listing(root):
    return {str(p.relative_to(root)): p.read_bytes() for p in sorted(root.rglob("*")) if p.is_file()}


def run_parse(src, out, skip, ignore=(), progress=False):
    from spex.jsonspec.lint import Code
    from spex.jsonspec.parserargs import ParserArgs
    from spex.parse import parse_spec

    steps, err, ret = [], None, None
    with real.quiet():
        try:
            g = parse_spec(src, ParserArgs(output_dir=out, skip_fig_on_error=skip, lint_codes_ignore=[Code[c] for c in ignore]), yield_progress=progress)
            while True:
                steps.append(next(g))
        except StopIteration as e:
            ret = e.value
        except Exception as e:  # noqa: BLE001
            err = e
    return ret, err, steps


def fresh(scratch, name):
    d = scratch.path / name
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    return d


# -- C12 ------------------------------------------------------------------------
def c12(c, rnd):
    from spex.jsonspec.lint import Code

    full = c.real
    out = []
    if full["failed"]:
        return []
    # complete: what the specification of the extraction calls for
    if not c.spec["failed"]:
        # figures given up report their finding only, entries of others are all there
        a, b = whole(full["lint"]), whole([list(x) for x in c.spec["lint"]])
        if a != b:
            miss = [x for x in b if x not in a]
            extra = [x for x in a if x not in b]
            out.append(f"reported issues: missing {J(miss[:3])}, unexpected {J(extra[:3])}, number or order differs: {not miss and not extra}")
    for x in full["raw_lint"]:
        code = x.get("code")
        if code not in Code.__members__ or x.get("msg") != Code[code].value:
            out.append(f"entry {J(x)} lacks the message of its code")
        if not isinstance(x.get("fig"), str) or not x["fig"] or not isinstance(x.get("context"), dict):
            out.append(f"entry {J(x)} lacks its figure or context")
        if code and code[0] in "RLV" and not isinstance(x.get("row"), str):
            out.append(f"entry {J(x)} does not name its row")
    # filtering
    codes = sorted(Code.__members__)
    present = sorted({x["code"] for x in full["raw_lint"]})
    ignore = rnd.sample(codes, rnd.randint(0, 6)) + rnd.sample(present, rnd.randint(0, len(present)))
    f = real.stage2(c.scratch, c.html, c.skip, ignore)
    want = [x for x in full["raw_lint"] if x["code"] not in ignore]
    if f["raw_lint"] != want:
        out.append(f"ignoring {ignore}: lint {J(f['raw_lint'])}, expected {J(want)}")
    if f["entities"] != full["entities"]:
        out.append(f"ignoring {ignore} changes the entities")
    return out


def whole(lint):
    """Findings per figure, in order, apart from figures given up."""
    gone = {x[1] for x in lint if x[0] == "T1000"}
    res = {}
    for x in lint:
        if x[1] not in gone:
            res.setdefault(x[1], []).append(x)
    return res


# -- C13 ------------------------------------------------------------------------
def c13(c, rnd):
    root = fresh(c.scratch, "c13")
    out = root / "out"
    out.mkdir()
    other = {f"other{i}.json": b"{}" for i in range(2)}
    for k, v in other.items():
        (out / k).write_bytes(v)
    name = rnd.choice(NAMES)
    src = root / (name + ".html")
    src.write_text(c.html, encoding="utf-8")
    dst = f"{name}.json"
    if rnd.random() < 0.5:
        (out / dst).write_text("x" * rnd.randint(0, 200000))
    skip = rnd.random() < 0.5
    progress = rnd.random() < 0.4
    if rnd.random() < 0.15:  # a document that cannot even be opened
        src.write_text(rnd.choice(("", "<html>", "<html><head/><body/></html>", c.html[: len(c.html) // 2])), encoding="utf-8")
    ret, err, steps = run_parse(src, out, skip, progress=progress)
    bad = []
    files = listing(root)
    if set(files) != {f"{name}.html", f"out/{dst}"} | {f"out/{k}" for k in other}:
        bad.append(f"files {sorted(files)} after converting {name}.html")
    if any(files.get(f"out/{k}") != v for k, v in other.items()):
        bad.append("another file of the output directory changed")
    try:
        m = json.loads(files.get(f"out/{dst}", b"").decode("utf-8"))
        assert set(m) == {"meta", "entities"} and isinstance(m["entities"], list) and isinstance(m["meta"], dict)
    except Exception as e:  # noqa: BLE001
        return bad + [f"output file of {name}.html ({'failed' if err else 'completed'} run) is no complete model: {e!r} {files.get(f'out/{dst}', b'')[:80]!r}"]
    s2 = real.stage2(c.scratch, src.read_text(encoding="utf-8"), skip)
    if bool(err) != s2["failed"] or m["entities"] != s2["entities"]:
        bad.append("the outcome depends on file name or progress reporting")
    if err is None:
        if ret is None or Path(ret) != out / dst:
            bad.append(f"result path {ret}, expected {out / dst}")
        if set(m["meta"]) != {"format version", "lint", "revision", "spex version", "specification"}:
            bad.append(f"meta data {sorted(m['meta'])}")
    if progress and err is None:
        n = [x for x in steps if x[0] == "json"]
        if [x[1] for x in n] != list(range(len(m["entities"]))):
            bad.append(f"progress {n} for {len(m['entities'])} entities")
    # characters are retained
    for t in texts(m["entities"]):
        if t.encode("utf-8") not in files[f"out/{dst}"] and json.dumps(t, ensure_ascii=False)[1:-1].encode("utf-8") not in files[f"out/{dst}"]:
            bad.append(f"text {t!r} is escaped in the output file")
            break
    # deterministic
    if rnd.random() < 0.3:
        run_parse(src, out, skip)
        if listing(root).get(f"out/{dst}") != files[f"out/{dst}"]:
            bad.append("a second run yields a different file")
    return bad


def texts(o):
    if isinstance(o, str):
        yield o
    elif isinstance(o, list):
        for x in o:
            yield from texts(x)
    elif isinstance(o, dict):
        for x in o.values():
            yield from texts(x)


# -- C14 ------------------------------------------------------------------------
def c14(c, rnd):
    from spex.validate import validate_json

    r = c.real
    if r["failed"]:
        return []
    try:
        validate_json(c.scratch.path / "out" / "doc.json")
    except Exception as e:  # noqa: BLE001
        return [f"model rejected by its schema: {type(e).__name__} {str(e)[:600]} {J(r['entities'])[:600]}"]
    # the reading of the schema on which the lemmas rest agrees with jsonschema
    from vspec import schema

    m = json.loads((c.scratch.path / "out" / "doc.json").read_text(encoding="utf-8"))
    if not schema.accepts(schema.load(), m):
        return [f"jsonschema accepts a model which vspec.schema rejects: {json.dumps(m)[:600]}"]
    # damage which the schema describes must not pass
    kinds = []
    ents = [e for e in m["entities"] if e.get("fields")]
    if ents:
        e = rnd.choice(ents)
        f = rnd.choice(e["fields"])
        kinds = [lambda: e.pop("fig_id"), lambda: e.pop("type"), lambda: f.pop("label"), lambda: f.pop("range" if "range" in f else "val"), lambda: e.update(type="words"),
                 lambda: f.update(label=7), lambda: f.update(brief=["x"]), lambda: f.update({"range": 3} if "range" in f else {"val": 3})]
    kinds += [lambda: m["meta"].pop("specification"), lambda: m["meta"].pop("revision"), lambda: m["meta"].update({"format version": "1"}), lambda: m.pop("entities"),
              lambda: m["meta"].update(lint={}), lambda: m["meta"]["lint"].append({"code": "T1000"}), lambda: m.pop("meta")]
    k = rnd.randrange(len(kinds))
    kinds[k]()
    if schema.accepts(schema.load(), m):
        return [f"damaged model (kind {k - len(kinds)}) conforms to the schema: {json.dumps(m)[:500]}"]
    p = c.scratch.path / "damaged.json"
    p.write_text(json.dumps(m), encoding="utf-8")
    try:
        validate_json(p)
    except Exception as e:  # noqa: BLE001
        return [] if type(e).__name__ == "ValidationError" else [f"validation fails with {e!r}"]
    return [f"damaged model (kind {k - len(kinds)}) accepted: {json.dumps(m)[:500]}"]


# -- C15 ------------------------------------------------------------------------
def swap(s):
    return "".join(x.swapcase() if x.isascii() else x for x in s)


def c15(c, rnd):
    out = []
    r, s = c.real, c.spec
    if r["failed"] != s["failed"]:
        return [f"run {'fails' if r['failed'] else 'completes'}: {r['error']}"]
    if (r["spec"], r["rev"]) != (s["spec"], s["rev"]):
        out.append(f"specification {r['spec']!r} revision {r['rev']!r}, expected {s['spec']!r} {s['rev']!r}")
    if r["meta"].get("format version") != 1 or not isinstance(r["meta"].get("spex version"), str):
        out.append(f"meta data {J(r['meta'])}")
    if r["entities"] != s["entities"]:
        out.append(f"entities {J(r['entities'])}, expected {J(s['entities'])}")
    if not r["failed"] and sorted(map(J, r["lint"])) != sorted(map(J, s["lint"])):
        out.append(f"lint {J(r['lint'])}, expected {J(s['lint'])}")
    # capitals do not matter, anything else does
    up = gen.render(dict(c.doc, spec=swap(c.doc["spec"]), rev=swap(c.doc["rev"])))
    u = real.stage2(c.scratch, up, c.skip)
    if u["entities"] != r["entities"] or (u["spec"], u["rev"]) != (r["spec"], r["rev"]):
        out.append("the document is treated differently if its title is written in other capitals")
    return out


# -- C24 ------------------------------------------------------------------------
def cli(argv, cwd):
    from spex import __main__ as m
    from spex import log  # noqa: F401
    from loguru import logger

    old, here = sys.argv, os.getcwd()
    so, se = io.StringIO(), io.StringIO()
    code = 0
    os.chdir(cwd)
    try:
        sys.argv = ["spex"] + argv
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            try:
                m.main()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except Exception as e:  # noqa: BLE001
                code = f"raised {type(e).__name__}: {e}"
    finally:
        sys.argv = old
        os.chdir(here)
    return code, se.getvalue()[-300:]


def cli_case(rnd, scratch, c):
    root = fresh(scratch, "c24")
    from spex.jsonspec.lint import Code

    inputs, expect, argv = [], {}, []
    skip = rnd.random() < 0.5
    validate = rnd.random() < 0.4
    ignore = None
    if rnd.random() < 0.5:
        codes = rnd.sample(sorted(Code.__members__), rnd.randint(1, 3))
        ignore = codes
    outdir = rnd.choice((None, "out", "new/deep", "."))
    kinds = [rnd.choices(("html", "fails", "json", "txt", "absent", "invalid", "docx", "baddocx"), (6, 2, 1, 1, 1, 1, 1, 0.3))[0] for _ in range(rnd.randint(1, 3))]
    docs = []
    same = rnd.random() < 0.3
    for i, k in enumerate(kinds):
        n = f"in{i}"
        if same:  # inputs of the same name
            (root / f"d{i}").mkdir()
            n = f"d{i}/in.x"
        if k in ("docx", "baddocx"):
            from rt import docx

            if k == "docx":
                docx.write_docx(root / f"{n}.docx", docx.Gen(rnd, {}).document())
            else:
                (root / f"{n}.docx").write_bytes(b"no zip file")
            inputs.append(f"{n}.docx")
            docs.append((root / f"{n}.docx").read_bytes())
        elif k in ("html", "fails", "invalid"):
            doc = stage2.document("C24", f"{rnd.random()}")[0]
            if k == "fails":
                doc = dict(doc, figs=doc["figs"] + [{"title": "Figure 98: Broken", "wrap": False, "rows": [
                    {"cells": [cellof("Bytes", "th"), cellof("Attribute", "th"), cellof("Description", "th")]}, {"cells": [cellof("0"), cellof("x")]}]}])
            if k == "invalid":
                doc = dict(doc, figs=doc["figs"] + [{"title": f"Figure 97: {MARK}", "wrap": False, "rows": [
                    {"cells": [cellof("Bytes", "th"), cellof("Description", "th")]}, {"cells": [cellof("0"), cellof("AB: x")]}]}])
            html = gen.render(doc)
            (root / f"{n}.html").write_text(html, encoding="utf-8")
            inputs.append(f"{n}.html")
            docs.append(html)
        elif k == "absent":
            inputs.append(f"{n}.html")
            docs.append(None)
        else:
            (root / f"{n}.{k}").write_text("{}")
            inputs.append(f"{n}.{k}")
            docs.append(None)
    opts = []
    if skip:
        opts += [rnd.choice(("-s", "--skip-figure-on-error"))]
    if validate:
        opts += ["--validate-json"]
    if ignore is not None:
        opts += ["--lint-ignore=" + rnd.choice((",", " , ", ", ")).join(x.lower() if rnd.random() < 0.3 else x for x in ignore)]
    if outdir is not None:
        opts += [rnd.choice(("-o", "--output")), outdir]
    bogus = rnd.random() < 0.08
    if bogus:
        opts += ["--lint-ignore=T9999"]
    return root, inputs, docs, kinds, opts, skip, ignore, outdir, bogus, validate and invalid_effective(scratch)


MARK = "NONCONFORMING"
_eff = None


def invalid_effective(scratch):
    """models with the mark fail validation (a stand-in within jsonschema, as spex writes no invalid ones)"""
    global _eff
    if _eff is None:
        from spex.validate import validate_json

        p = scratch.path / "mark.json"
        p.write_text(json.dumps({"meta": {"specification": "a", "revision": "b", "format version": 1}, "entities": [{"title": MARK, "fig_id": "1", "type": "values", "fields": []}]}))
        try:
            validate_json(p)
            _eff = False
        except Exception:  # noqa: BLE001
            _eff = True
    return _eff


def hook():
    import jsonschema

    if hasattr(jsonschema.validate, "marked"):
        return
    orig = jsonschema.validate

    def validate(instance, *a, **k):
        if MARK in json.dumps(instance):
            raise jsonschema.ValidationError("does not conform")
        return orig(instance, *a, **k)

    validate.marked = True
    jsonschema.validate = validate


def cellof(t, tag="td"):
    return {"paras": [t], "tables": [], "rs": 1, "cs": 1, "tag": tag}


def c24(c, rnd):
    root, inputs, docs, kinds, opts, skip, ignore, outdir, bogus, validate = cli_case(rnd, c.scratch, c)
    argv = (inputs + opts) if rnd.random() < 0.5 else (opts + inputs)
    before = listing(root)
    code, err = cli(argv, root)
    after = {k: v for k, v in listing(root).items() if k not in before and k != "spex.log"}
    bad = []
    if any(after.get(k, listing(root).get(k)) != v for k, v in before.items()):
        bad.append(f"spex {argv} changed its input files")
    if "absent" in kinds or bogus:
        if code == 0:
            bad.append(f"spex {argv}: exit status 0 in spite of {'an unknown lint code' if bogus else 'a missing input file'}")
        if [k for k in after if k.endswith(".json")]:
            bad.append(f"spex {argv}: output {sorted(after)} in spite of a usage error")
        return bad
    # inputs are processed in order, until one fails
    want, ok, loose = {}, True, False
    base = outdir or "."
    for name, html, kind in zip(inputs, docs, kinds):
        if html is None:
            ok = False
            break
        name = os.path.basename(name)
        dst = f"{base}/{name[:-5]}."
        if isinstance(html, bytes):
            d = fresh(c.scratch, "c24x")
            (d / "in.docx").write_bytes(html)
            (d / "out").mkdir()
            run_parse(d / "in.docx", d / "out", skip, ignore or ())
            if not (d / "out" / "in.json").exists():  # the first stage failed
                ok = False
                loose = True
                break
            for s in ("html", "css"):
                want[os.path.normpath(dst + s)] = None
            html = (d / "out" / "in.html").read_text()
        r = real.stage2(c.scratch, html, skip, ignore or ())
        want[os.path.normpath(dst + "json")] = r
        if r["failed"] or (validate and MARK in json.dumps(r["entities"])):
            ok = False
            break
    if (code == 0) != ok:
        bad.append(f"spex {argv} ({kinds}): exit status {code}, expected {'0' if ok else 'a failure'}; {err}")
    if set(after) != set(want) and not (loose and set(after) >= set(want)):
        bad.append(f"spex {argv}: wrote {sorted(after)}, expected {sorted(want)}")
    for k, r in want.items():
        if k not in after or r is None:
            continue
        try:
            m = json.loads(after[k])
        except ValueError:
            bad.append(f"{k} is no JSON")
            continue
        if m["entities"] != r["entities"] or (not r["failed"] and m["meta"].get("lint") != r["raw_lint"]):
            bad.append(f"spex {argv}: {k} has entities or reports other than those of the document")
    return bad


CHECKS = {"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C24": c24}


def run_one(pid, seed, scratch):
    rnd = random.Random(f"x{pid}/{seed}")
    real.load()
    if pid == "C24":
        hook()
        c = Ctx(scratch, {"spec": "s", "rev": "1", "figs": []}, True)
        bad = c24(c, rnd)
        return True, f"command line case {seed}", {"complaints": bad[:4], "seed": seed, "pid": pid} if bad else None
    doc, skip = stage2.document(pid, seed)
    c = Ctx(scratch, doc, skip if pid != "C14" else True)
    bad = CHECKS[pid](c, rnd)
    v = None
    if bad:
        fn = lambda c2: CHECKS[pid](c2, random.Random(f"x{pid}/{seed}"))
        small = stage2.shrink(fn, scratch, doc, c.skip, 150)
        c2 = Ctx(scratch, small, c.skip)
        v = {"html": c2.html, "doc": small, "skip": c.skip, "complaints": (fn(c2) or bad)[:4], "seed": seed}
    return stage2.interesting(pid, c), c.html, v
