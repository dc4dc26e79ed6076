"""Runtime contracts of the second stage, on generated documents (bounded).

Every function returns a list of complaints (strings); an empty list means
that the property held on this document."""
import copy
import json
import random

from . import gen, real


def J(x):
    return json.dumps(x, ensure_ascii=False, sort_keys=True)


def entity_key(e):
    return (e.get("fig_id"), e.get("parent_fig_id"), e.get("type"), e.get("title"))


def lints(res, codes, fig=None):
    return [x for x in res["lint"] or [] if x[0] in codes and (fig is None or x[1] == fig)]


def by_fig(ls):
    o = {}
    for x in ls:
        o.setdefault(x[1], []).append(x)
    return o


class Ctx:
    """one generated document with lazily computed results"""

    def __init__(self, scratch, doc, skip=True):
        self.scratch, self.doc, self.skip = scratch, doc, skip
        self.html = gen.render(doc)
        self._real = self._spec = None

    @property
    def real(self):
        if self._real is None:
            self._real = real.stage2(self.scratch, self.html, self.skip)
        return self._real

    @property
    def spec(self):
        if self._spec is None:
            from vspec import doc as D

            self._spec = D.stage2(self.html, self.skip)
        return self._spec


def pairs(c, types=("bits", "bytes", "values")):
    """entities of the real run and of the specification which correspond to
    each other: the k-th entity with a given id and type"""
    seen = {}
    for e in c.spec["entities"]:
        seen.setdefault((e.get("fig_id"), e.get("type")), []).append(e)
    for e in c.real["entities"]:
        l = seen.get((e.get("fig_id"), e.get("type")))
        if l and e.get("type") in types:
            yield e, l.pop(0)


def same_lints(c, codes):
    if c.real["lint"] is None or c.spec["failed"] or c.real["failed"]:
        return []
    a, b = by_fig(lints(c.real, codes)), by_fig([list(x) for x in c.spec["lint"] if x[0] in codes])
    # only figures which were processed to the end on both sides
    broken = {x[1] for x in (c.real["lint"] or []) + [list(x) for x in c.spec["lint"]] if x[0] == "T1000"}
    out = []
    for f in sorted(set(a) | set(b), key=str):
        if f not in broken and a.get(f, []) != b.get(f, []):
            out.append(f"figure {f}: lint {J(a.get(f, []))}, expected {J(b.get(f, []))}")
    return out


def field_values(c, types, what, proj, need_len=True):
    out = []
    for r, s in pairs(c, types):
        fr, fs = r.get("fields", []), s["fields"]
        if need_len and len(fr) != len(fs):
            continue
        a, b = [proj(f) for f in fr], [proj(f) for f in fs]
        if a != b:
            out.append(f"figure {r['fig_id']} ({r['type']}): {what} {J(a)}, expected {J(b)}")
    return out


SPECIAL = ("RESERVED", "OBSOLETE", "…")


def c01(c):
    return field_values(c, ("bits", "bytes"), "ranges", lambda f: f.get("range")) + same_lints(c, ("R1000", "R1001", "R1002"))


def recompute(c, kind):
    """lint issues which the fields in the output call for"""
    out = {}
    for e in c.real["entities"]:
        want = out.setdefault(e["fig_id"], [])
        fs = e["fields"]
        if len(fs) < 2:
            continue
        num = lambda f: f["range"] if isinstance(f["range"], dict) and f["label"] != "…" else None
        key = lambda r: str(r["low"]) if isinstance(r, dict) else r
        ints = lambda *v: all(isinstance(x, int) for x in v)
        if e["type"] == "values":
            labels, vals = set(), set()
            for f in fs:
                if f["label"] in ("RESERVED", "…"):
                    continue
                if kind == "dup" and f["label"] in labels:
                    want.append(["L1002", e["fig_id"], f["val"], {"label": f["label"]}])
                if kind == "dup" and f["val"] in vals:
                    want.append(["V1002", e["fig_id"], f["val"], {}])
                labels.add(f["label"])
                vals.add(f["val"])
            continue
        disorder = any(num(a) and num(b) and ints(num(a)["low"], num(b)["low"]) and num(a)["low"] > num(b)["low"] for a, b in zip(fs, fs[1:]))
        if disorder:
            if kind == "order":
                want.append(["T1004", e["fig_id"], None, {}])
            continue
        labels = {fs[0]["label"]}
        for a, b in zip(fs, fs[1:]):
            if kind == "dup" and b["label"] not in ("RESERVED", "…") and b["label"] in labels:
                want.append(["L1002", e["fig_id"], key(b["range"]), {"label": b["label"]}])
            labels.add(b["label"])
            ra, rb = num(a), num(b)
            if kind == "order" and ra and rb and ints(ra["high"], rb["low"]):
                if ra["high"] >= rb["low"]:
                    want.append(["T1001", e["fig_id"], key(rb), {}])
                elif ra["high"] + 1 != rb["low"]:
                    want.append(["T1002", e["fig_id"], key(rb), {}])
    return out


def lint_exact(c, kind, codes):
    if c.real["lint"] is None:
        return []
    want, got = recompute(c, kind), by_fig(lints(c.real, codes))
    failed = {x[1] for x in lints(c.real, ("T1000",))}
    out = []
    for f in sorted(set(want) | set(got), key=str):
        if f in failed:
            continue
        if sorted(map(J, want.get(f, []))) != sorted(map(J, got.get(f, []))):
            out.append(f"figure {f}: lint {J(got.get(f, []))}, but its fields call for {J(want.get(f, []))}")
    return out


def c02(c):
    return lint_exact(c, "order", ("T1001", "T1002", "T1004"))


def c03(c):
    return lint_exact(c, "dup", ("L1002", "V1002"))


def rng_or_special(f):
    return [f.get("range"), f.get("label") if f.get("label") in SPECIAL else None]


def c04(c):
    out = field_values(c, ("bits", "bytes"), "fields", rng_or_special, need_len=False)
    out += dropped(c, ("bits", "bytes"))
    return out


def dropped(c, types):
    """entities of these types which are missing or which should not exist"""
    a = sorted(J(entity_key(e)) for e in c.real["entities"] if e.get("type") in types)
    b = sorted(J(entity_key(e)) for e in c.spec["entities"] if e.get("type") in types)
    if c.real["failed"] or c.spec["failed"]:
        return []
    return [] if a == b else [f"entities {a}, expected {b}"]


def c05(c):
    return field_values(c, ("values",), "fields", lambda f: [f.get("val"), f.get("label") if f.get("label") in SPECIAL else None], need_len=False) + dropped(c, ("values",))


def c06(c):
    return (field_values(c, ("bits", "bytes", "values"), "labels", lambda f: f.get("label"))
            + same_lints(c, ("L1000", "L1001", "L1003", "L1004", "L1007")))


def c07(c):
    out = field_values(c, ("bits", "bytes", "values"), "briefs", lambda f: f.get("brief", "<none>"))
    for e in c.real["entities"]:
        for f in e.get("fields", []):
            if len(f.get("brief", "")) > 60:
                out.append(f"figure {e['fig_id']}: brief of {len(f['brief'])} characters")
    return out


# -- C08: expanding the row spans by hand changes nothing ------------------------
def expand(t):
    """the same table without any cell that spans rows"""
    t = copy.deepcopy(t)
    below = []  # (col, cell, left)
    rows = []
    for row in t["rows"]:
        if any(c["tag"] == "th" for c in row["cells"]) or not row["cells"]:
            if row["cells"]:
                rows.append(row)
            below = [(c, e, n - 1) for c, e, n in below if n > 1]
            continue
        col, line, new, todo = 0, [], [], sorted(below, key=lambda x: x[0])
        for cell in row["cells"]:
            while todo and todo[0][0] <= col:
                line.append(todo[0][1])
                col += todo[0][1]["cs"]
                todo = todo[1:]
            if cell["rs"] > 1:
                single = dict(copy.deepcopy(cell), rs=1)
                new.append((col, single, cell["rs"]))
                line.append(single)
            else:
                line.append(cell)
            col += cell["cs"]
        line += [e for _, e, _ in todo]
        rows.append({"cells": [copy.deepcopy(x) for x in line]})
        below = [(c, e, n - 1) for c, e, n in below + new if n > 1]
    t["rows"] = rows
    return t


def has_spans(t):
    return any(c["rs"] > 1 for r in t["rows"] for c in r["cells"])


def c08(c):
    if not any(has_spans(t) for t in c.doc["figs"]):
        return []
    d2 = dict(c.doc, figs=[expand(t) for t in c.doc["figs"]])
    e = Ctx(c.scratch, d2, c.skip)
    out = []
    if c.real["entities"] != e.real["entities"]:
        out.append(f"entities {J(c.real['entities'])}, but {J(e.real['entities'])} once each spanning cell is repeated in every row it spans")
    elif c.real["lint"] != e.real["lint"]:
        out.append(f"lint {J(c.real['lint'])}, but {J(e.real['lint'])} once each spanning cell is repeated in every row it spans")
    return out


# -- figures --------------------------------------------------------------------
def c09(c):
    top = lambda r: [entity_key(e) for e in r["entities"] if "parent_fig_id" not in e]
    out = []
    if top(c.real) != top(c.spec):
        out.append(f"figures {J(top(c.real))}, expected {J(top(c.spec))}")
    if c.real["lint"] is not None and not c.spec["failed"]:
        codes = ("T1006", "T1007", "T1008")
        a, b = by_fig(lints(c.real, codes)), by_fig([list(x) for x in c.spec["lint"] if x[0] in codes])
        if a != b:
            out.append(f"lint {J(a)}, expected {J(b)}")
    return out


def figs_alone(c):
    """results of processing each figure of the document on its own"""
    for t in c.doc["figs"]:
        yield real.stage2(c.scratch, gen.render(dict(c.doc, figs=[t])), True)


def c10(c):
    out = []
    c.skip = True
    r = c.real
    if r["failed"]:
        return [f"aborted in spite of skip-figure-on-error: {r['error']}"]
    alone = list(figs_alone(c))
    es, ls = [], []
    for a in alone:
        if a["failed"]:
            return [f"aborted in spite of skip-figure-on-error: {a['error']}"]
        es += a["entities"]
        ls += [x for x in a["lint"] if x[0] != "T1008"]
    if r["entities"] != es:
        out.append(f"entities {J(r['entities'])}, but {J(es)} when every figure is processed on its own")
    if [x for x in r["lint"] if x[0] != "T1008"] != ls:
        out.append(f"lint {J(r['lint'])}, but {J(ls)} when every figure is processed on its own")
    # failures are reported
    a, b = lints(r, ("T1000",)), [list(x) for x in c.spec["lint"] if x[0] == "T1000"]
    if a != b:
        out.append(f"failed figures reported {J(a)}, expected {J(b)}")
    # without the option, the first failure ends the run
    s = real.stage2(c.scratch, c.html, False)
    if s["failed"] != bool(b):
        out.append(f"without skip-figure-on-error: {'aborted' if s['failed'] else 'completed'}, with it the failures {J(b)} are reported")
    elif s["failed"]:
        if s["entities"] != r["entities"][: len(s["entities"])]:
            out.append("entities written before the failure differ")
        n = 0
        for x in alone:
            if lints(x, ("T1000",)):
                break
            n += len(x["entities"])
        if len(s["entities"]) < n:
            out.append("entities of figures preceding the failure are missing")
    elif s["entities"] != r["entities"] or s["lint"] != r["lint"]:
        out.append("skip-figure-on-error changes the result of a document without failures")
    return out


def c11(c):
    nest = lambda r: [[e["fig_id"], e.get("parent_fig_id"), e.get("type")] for e in r["entities"]]
    out = []
    sub = lambda r: [x for x in nest(r) if x[1] is not None]
    if sub(c.real) != sub(c.spec):
        out.append(f"nested figures {J(sub(c.real))}, expected {J(sub(c.spec))}")
    return out


def whole(c):
    out = []
    if c.real["entities"] != c.spec["entities"]:
        out.append(f"entities {J(c.real['entities'])}, expected {J(c.spec['entities'])}")
    return out


PROFILES = {
    "C01": {"nested": 0.04}, "C02": {"nested": 0.05}, "C03": {"nested": 0.05}, "C08": {"span": 0.3, "nested": 0.08, "nested_span": 0, "ellipsis": 0.14},
    "C06": {"quirks": 0.3}, "C09": {"nested": 0.04}, "C11": {"nested": 0.35}, "C10": {"nested": 0.15, "quirks": 0.3}, "C15": {"quirks": 1.0, "near": 0.25},
}
CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11}


def document(pid, seed):
    r = random.Random(f"{pid}/{seed}")
    g = gen.Gen(r, PROFILES.get(pid, {}))
    return g.document(4 if pid in ("C09", "C10") else 3), r.random() < 0.85


def interesting(pid, c):
    """non-trivial: the document yields a field or an issue"""
    return any(e.get("fields") for e in c.real["entities"]) or bool(c.real["lint"])


# -- shrinking ------------------------------------------------------------------
def reductions(d):
    for i in range(len(d["figs"])):
        if len(d["figs"]) > 1:
            yield dict(d, figs=d["figs"][:i] + d["figs"][i + 1:])
    for i, t in enumerate(d["figs"]):
        for t2 in table_reductions(t):
            yield dict(d, figs=d["figs"][:i] + [t2] + d["figs"][i + 1:])


def table_reductions(t):
    rows = t["rows"]
    for i in range(len(rows) - 1, 0, -1):
        yield dict(t, rows=rows[:i] + rows[i + 1:])
    if t.get("wrap"):
        yield dict(t, wrap=False)
    for i, r in enumerate(rows):
        for j, c in enumerate(r["cells"]):
            def put(c2):
                cells = r["cells"][:j] + [c2] + r["cells"][j + 1:]
                return dict(t, rows=rows[:i] + [dict(r, cells=cells)] + rows[i + 1:])
            for k in range(len(c["tables"])):
                yield put(dict(c, tables=c["tables"][:k] + c["tables"][k + 1:]))
                for t2 in table_reductions(c["tables"][k]):
                    yield put(dict(c, tables=c["tables"][:k] + [t2] + c["tables"][k + 1:]))
            if len(c["paras"]) > 1:
                yield put(dict(c, paras=c["paras"][:1]))
            if i and c["paras"] and len(c["paras"][0]) > 12:
                yield put(dict(c, paras=[c["paras"][0][: len(c["paras"][0]) // 2]] + c["paras"][1:]))


def shrink(check, scratch, doc, skip, limit=400):
    n = 0
    again = True
    while again and n < limit:
        again = False
        for d in reductions(doc):
            n += 1
            if n > limit:
                break
            try:
                bad = check(Ctx(scratch, d, skip))
            except Exception:  # noqa: BLE001
                bad = []
            if bad:
                doc, again = d, True
                break
    return doc


def run_one(pid, seed, scratch):
    """-> (nontrivial, sample, violation or None)"""
    doc, skip = document(pid, seed)
    c = Ctx(scratch, doc, skip)
    bad = CHECKS[pid](c)
    nt = interesting(pid, c)
    if bad:
        small = shrink(CHECKS[pid], scratch, doc, skip)
        c2 = Ctx(scratch, small, skip)
        bad2 = CHECKS[pid](c2) or bad
        return nt, c.html[:400], {"html": c2.html, "doc": small, "skip": skip, "complaints": bad2[:4], "seed": seed}
    return nt, c.html, None


def replay(pid, data, scratch):
    return CHECKS[pid](Ctx(scratch, data["doc"], data["skip"]))
