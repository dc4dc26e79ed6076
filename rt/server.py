"""Runtime contracts of the server, on generated sequences of uploads and
requests (bounded).  Runs as an unprivileged user, all names which an upload
carries point into the scratch directory even if they escape the upload's."""
import asyncio
import hashlib
import io
import json
import os
import random
import re
import shutil
import tempfile
import zipfile
from pathlib import Path

from lxml import etree

from . import docx, gen, output, real
from .stage2 import J

SECRET = "secret-4711-content"
_ready = None


def drop(scratch):
    """become an unprivileged user, if its files can be read that way"""
    global _ready
    if _ready is not None:
        return
    real.load()
    import spexsrv.application.app  # noqa: F401
    import quart.testing  # noqa: F401

    _ready = "root"
    if os.getuid() != 0:
        return
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            for p in (real.REPO / "src").rglob("*"):
                if p.is_file() and "__pycache__" not in p.parts:
                    p.open("rb").close()
            Path(__file__).open("rb").close()
            rc = 0
        finally:
            os._exit(rc)
    if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) == 0:
        os.chown(scratch.path, 65534, 65534)
        os.chdir(scratch.path)
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
        _ready = "nobody"


# -- documents --------------------------------------------------------------------
def render(doc, rnd, entity=None):
    """HTML model with table ids, as the first stage writes them"""
    html = gen.render(doc)
    ids = rnd.random()

    def put(m):
        n = re.match(r"Figure (\d+):", m.group(3))
        i = n.group(1) if n and rnd.random() < 0.9 else None
        if ids < 0.2 and rnd.random() < 0.4:
            i = rnd.choice(("1", "2", "7-2", "07", "a", "7 a", "x'y"))
        return (f'<table id="{i}">' if i is not None else "<table>") + m.group(2) + m.group(3)

    html = re.sub(r"(<table>)(<tr><td[^>]*><p><span>)([^<]*)", put, html)
    if entity:
        html = html.replace("<!DOCTYPE html>", entity[0], 1).replace("</body>", entity[1] + "</body>", 1)
    return html.encode("utf-8")


def html_doc(rnd, small=True):
    g = gen.Gen(rnd, {"nested": 0.2})
    d = g.document(3)
    for i, f in enumerate(d["figs"]):
        if f["title"] and rnd.random() < 0.5:
            f["title"] = f"Figure {rnd.choice(('1', '2', '3', '7', '7-2', '3-1', '07', '5', '9_1', '7]|/*[1', 'A'))}: t"
    return d


EVIL_TABLE = '<table id="1"><tr><td><p><span>Figure 1: &e;</span></p></td></tr><tr><th>Bits</th><th>Description</th></tr><tr><td>1:&e;</td><td><p><span>A &e; (AB): x&e;</span></p></td></tr></table>'


def evil_html(rnd, secret):
    kind = rnd.randrange(4)
    d = {"spec": "S", "rev": "1", "figs": []}
    if kind == 0:
        e = f'<!DOCTYPE html [<!ENTITY e SYSTEM "file://{secret}">]>'
    elif kind == 1:
        e = f'<!DOCTYPE html [<!ENTITY % p SYSTEM "file://{secret}.dtd"> %p;]>'
    elif kind == 2:
        e = f'<!DOCTYPE html SYSTEM "file://{secret}.dtd">'
    else:
        e = f'<!DOCTYPE html [<!ENTITY e PUBLIC "x" "{secret}">]>'
    return render(d, rnd, (e, EVIL_TABLE))


def docx_bytes(scratch, doc, rnd, secret=None):
    p = scratch.path / "gen.docx"
    docx.write_docx(p, doc)
    if secret is None:
        b = p.read_bytes()
        p.unlink()
        return b
    parts = docx.x_doc(doc)
    p.unlink()
    name = rnd.choice([k for k in parts if k.endswith(("document.xml", "core.xml", "styles.xml"))])
    x = parts[name].decode()
    root = re.search(r"<([\w:]+)[ >]", re.sub(r"<\?.*?\?>", "", x)).group(1)
    x = re.sub(r"<\?xml.*?\?>\s*", "", x)
    x = f'<?xml version="1.0" encoding="UTF-8"?><!DOCTYPE {root} [<!ENTITY e SYSTEM "file://{secret}">]>' + re.sub(r"(<(?:w:t|dc:title|cp:version|dc:subject)(?: [^>]*)?>)", r"\1&e;", x)
    parts = dict(parts, **{name: x.encode()})
    o = io.BytesIO()
    with zipfile.ZipFile(o, "w") as z:
        for k, v in parts.items():
            z.writestr(k, v)
    return o.getvalue()


# -- the world around the server ----------------------------------------------------
class World:
    def __init__(self, scratch):
        self.scratch = scratch
        self.root = scratch.path / "srv"
        shutil.rmtree(self.root, ignore_errors=True)
        self.deep = self.root / "a" / "b" / "c" / "d" / "e" / "f"
        self.tmp = self.deep / "tmp"
        self.tmp.mkdir(parents=True)
        self.cwd = self.deep / "cwd"
        self.cwd.mkdir()
        self.secret = self.root / "secret.txt"
        self.secret.write_text(SECRET)
        (self.root / "secret.txt.dtd").write_text(f'<!ENTITY e "{SECRET}">')
        self.victim = self.deep / "victim.html"
        self.victim.write_text("untouched")
        os.chdir(self.cwd)
        tempfile.tempdir = str(self.tmp)

    def outside(self):
        return {str(p.relative_to(self.root)): p.read_bytes() if p.is_file() else "dir" for p in sorted(self.root.rglob("*")) if self.tmp not in p.parents}

    def direct(self, name, body):
        """what the command line makes of the same document"""
        d = self.scratch.path / "direct"
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        src = d / name
        src.write_bytes(body)
        ret, err, steps = output.run_parse(src, d, True, progress=True)
        if err is not None:
            return None
        h = d / (name.rsplit(".", 1)[0] + ".html")
        return json.loads(Path(ret).read_text(encoding="utf-8")), h.read_bytes(), [list(s) for s in steps]


async def upload(client, name, body):
    from quart.datastructures import FileStorage

    try:
        r = await client.post("/parse", files={"document": FileStorage(io.BytesIO(body), filename=name)}, headers={"Accept": "text/event-stream"})
        data = await r.get_data()
    except Exception as e:  # noqa: BLE001
        return {"status": 500, "events": [], "error": f"{type(e).__name__}: {e}"[:200], "data": b""}
    ev = []
    if r.status_code == 200:
        for part in data.split(b"\n\n"):
            if part.startswith(b"data: "):
                ev.append(json.loads(part[6:]))
    return {"status": r.status_code, "events": ev, "data": data}


def url_of(u):
    return next((e["url"] for e in u["events"] if e.get("type") == "report-completed"), None)


async def get(client, url):
    r = await client.get(url)
    return r.status_code, await r.get_data()


def page_data(page, name):
    m = re.search(rb"const %s = (.*);\n" % name.encode(), page)
    return json.loads(m.group(1).decode("utf-8")) if m else None


def canon(e):
    """a table apart from white-space between its elements"""
    return [e.tag, sorted(e.attrib.items()), (e.text or "").strip(), [[canon(k), (k.tail or "").strip()] for k in e if isinstance(k.tag, str)]]


def table_sources(html):
    tree = etree.fromstring(html, etree.XMLParser(resolve_entities=False))
    out = {}
    for t in tree.findall("body/table"):
        if t.get("id") is not None:
            out.setdefault(t.get("id"), canon(t))
    return out


def shown(v):
    """the one table which is shown"""
    top = etree.fromstring("<x>" + v + "</x>", etree.XMLParser(resolve_entities=False))
    return [canon(t) for t in top]


def figures_of(model, html):
    nums = {x["fig"].split("_")[0] for x in model["meta"]["lint"]}
    src = table_sources(html)
    return nums, {n: src[n] for n in nums if n in src}


# -- the properties -------------------------------------------------------------
PLAIN = ("a.html", "b.html", "spec 2.0.html", "ü.html", "x.y.html")


def run(co):
    with real.quiet():
        return asyncio.run(co)


def c21(rnd, w):
    from spexsrv.application import app as A

    names = ["../evil.html", "../../../evil.html", "x/../../evil.html", "..\\evil.html", str(w.deep / "evil.html"), str(w.victim), "../../victim.html", "../../cwd/evil.html", "/a.html", "sub/a.html",
             "..", ".", "...", "", "/", "../", "a\0.html", "a.html\0", ".html", "..html", "\u2044..\u2044evil.html", "~/evil.html", "$HOME/evil.html", "%2e%2e%2fevil.html", "a.html/..", "C:\\evil.html",
             "../evil.docx", str(w.deep / "evil.docx"), "evil.json", "../../victim", "." + str(w.deep) + "/evil.html"]
    ups = []
    for _ in range(rnd.randint(1, 3)):
        kind = rnd.randrange(4)
        if kind == 0:
            name, body = rnd.choice(("a.html", "b.html")), evil_html(rnd, w.secret)
        elif kind == 1:
            name, body = "a.docx", docx_bytes(w.scratch, docx.Gen(rnd, {}).document(), rnd, w.secret if rnd.random() < 0.7 else None)
        else:
            name = rnd.choice(names)
            body = render(html_doc(rnd), rnd)
            if name.endswith(".docx"):
                body = docx_bytes(w.scratch, docx.Gen(rnd, {}).document(), rnd)
            elif rnd.random() < 0.1:
                body = rnd.choice((b"", b"<html/>", b"PK\3\4", body[: len(body) // 2]))
        ups.append((name, body))
    before = w.outside()
    bad = []

    async def go():
        async with A.app.test_app():
            c = A.app.test_client()
            start = {p.name for p in w.tmp.iterdir()}
            texts = []
            for i, (name, body) in enumerate(ups):
                u = await upload(c, name, body)
                texts.append((name, u["data"], body))
                if w.outside() != before:
                    a = w.outside()
                    bad.append(f"upload of {name!r} changed {sorted(k for k in set(a) | set(before) if a.get(k) != before.get(k))} outside of the upload directory")
                left = {p.name for p in w.tmp.iterdir()} - start
                if left:
                    bad.append(f"files of the upload of {name!r} are left: {sorted(left)}")
                url = url_of(u)
                for kind in ("json", "html", "report") if url else ():
                    st, d = await get(c, url.replace("/report/", f"/{kind}/"))
                    texts.append((name, d, body))
            for t in ("..%2f..%2f..%2fsecret.txt", "%2e%2e/secret.txt", "secret.txt", str(w.secret).replace("/", "%2f")):
                for kind in ("json", "html", "report", "static"):
                    st, d = await get(c, f"/{kind}/{t}")
                    texts.append((f"GET /{kind}/{t}", d, b""))
            for name, d, body in texts:
                if SECRET.encode() in d:
                    bad.append(f"content of a local file is disclosed by {name!r}")
        return None

    run(go())
    return bad, J([n for n, _ in ups]), {"uploads": [[n, b.decode("latin-1")] for n, b in ups]}


COLLIDING = []


def colliding():
    """pairs of documents whose md5 sums agree in their first or last eight digits"""
    if not COLLIDING:
        head = b'<html><head><meta data-spec="A" data-revision="1"/></head><body><p>'
        tail = b"</p></body></html>"
        for cut in (slice(0, 8), slice(24, 32)):
            seen = {}
            for k in range(1000000):
                b = head + b"%d" % k + tail
                x = hashlib.md5(b).hexdigest()[cut]
                if x in seen:
                    COLLIDING.append((seen[x], b))
                    break
                seen[x] = b
    return COLLIDING


def c22(rnd, w):
    from spexsrv.application import app as A

    bodies = []
    for _ in range(rnd.randint(1, 3)):
        if rnd.random() < 0.2:
            bodies.append((".docx", docx_bytes(w.scratch, docx.Gen(rnd, {}).document(), rnd)))
        elif rnd.random() < 0.15:
            b = render(html_doc(rnd), rnd)
            bodies.append((".html", rnd.choice((b"", b"<html>", b[: len(b) // 2], b"<html><head/><body/></html>"))))
        else:
            b = render(html_doc(rnd), rnd)
            if rnd.random() < 0.1:
                b = b.replace(b"<body>", b"<body><p>" + b"x" * rnd.choice((4100, 70000)) + b"</p>", 1)
            end = rnd.random() < 0.4
            bodies.append((".html", b.replace(b"</body>", b"<p>A</p></body>") if end else b))
            if end:  # of the same length
                bodies.append((".html", b.replace(b"</body>", b"<p>B</p></body>")))
            elif rnd.random() < 0.3:  # differs at its end or in one place only
                bodies.append((".html", rnd.choice((b + b"\n", b.replace(b"</body>", b"<p/></body>"), b.replace(b"Figure", b"Figurf", 1)))))
    stems = [rnd.choice(("a", "b", "report", "x.y", "ü", "a b")) for _ in range(2)]
    ops = []
    if rnd.random() < 0.1:
        n = len(bodies)
        bodies += [(".html", b) for b in rnd.choice(colliding())]
        ops = [["up", [(stems[0], n)]], ["up", [(rnd.choice(stems), n + 1)]]]
    for _ in range(rnd.randint(2, 7)):
        if rnd.random() < 0.7:
            ops.append(["up", [(rnd.choice(stems), rnd.randrange(len(bodies))) for _ in range(rnd.choice((1, 1, 1, 2, 3)))]])
        else:
            ops.append(["get", None])
    model = {}  # content -> (url, json, set of html)
    bad = []
    urls = {}

    async def look(c):
        for k, (url, m, hs) in model.items():
            st, d = await get(c, url.replace("/report/", "/json/"))
            if st != 200 or json.loads(d) != m:
                bad.append(f"JSON of document {k} at {url}: status {st}, {d[:200]!r}, expected {J(m)[:200]}")
            st, d = await get(c, url.replace("/report/", "/html/"))
            if st != 200 or d not in hs:
                bad.append(f"HTML of document {k} at {url}: status {st}, {d[:200]!r}")
            st, d = await get(c, url + rnd.choice(("", "?bundle=1")))
            if st != 200 or page_data(d, "report") != m:
                bad.append(f"report of document {k} at {url}: status {st}")
        known = {v[0].rsplit("/", 1)[1] for v in model.values()}
        pool = ["nope", "0" * 32, "a.json", "a", "..", "None"] + [x[:-1] for x in known] + [x.upper() for x in known] + [x + "0" for x in known] + [rnd.choice((x[:8], x[:6], x[:16], x[-8:])) for x in known]
        for x in rnd.sample(pool, min(len(pool), 3)):
            if x in known:
                continue
            for kind in ("report", "json", "html"):
                st, d = await get(c, f"/{kind}/{x}")
                if st != 404:
                    bad.append(f"GET /{kind}/{x} of an unknown document: status {st}, expected 404")

    async def go():
        async with A.app.test_app():
            c = A.app.test_client()
            for op, arg in ops:
                if op == "get":
                    await look(c)
                    continue
                if len(arg) == 1 and rnd.random() < 0.2:
                    # the same content under a name spex does not accept: completed or not, earlier reports stay
                    await upload(c, arg[0][0] + rnd.choice((".htm", ".docx" if bodies[arg[0][1]][0] == ".html" else ".html", ".json", "")), bodies[arg[0][1]][1])
                    await look(c)
                    if bad:
                        return
                    continue
                res = await asyncio.gather(*(upload(c, stem + bodies[k][0], bodies[k][1]) for stem, k in arg))
                done = {}
                for (stem, k), u in zip(arg, res):
                    exp = w.direct(stem + bodies[k][0], bodies[k][1])
                    url = url_of(u)
                    if (exp is None) != (url is None):
                        bad.append(f"upload of document {k} as {stem}{bodies[k][0]}: completed {url is not None}, its conversion succeeds: {exp is not None} {u.get('error', '')}")
                        continue
                    if exp is None:
                        continue
                    steps = [[e["phase"], e["fig_ndx"], e["num_figs"]] for e in u["events"] if e["type"] == "progress-update"]
                    if steps != exp[2] or u["events"][-1]["type"] != "report-completed":
                        bad.append(f"progress of document {k}: {steps}, expected {exp[2]}")
                    if urls.setdefault(bodies[k], url) != url:
                        bad.append(f"document {k} has the addresses {url} and {urls[bodies[k]]}")
                    done.setdefault(bodies[k][1], (url, exp[0], []))[2].append(exp[1])
                model.update({b: v for b, v in done.items()})
                us = [v[0] for v in model.values()]
                if len(set(us)) != len(us):
                    bad.append("two documents have the same address")
                if bad:
                    return
            await look(c)

    # content is named by its index in messages
    idx = {}
    real_model = model

    class M(dict):
        def items(self):
            return [(idx.setdefault(k, len(idx)), v) for k, v in dict.items(self)]

    model = M(real_model)
    run(go())
    return bad, J([ops, [b.decode("latin-1")[:200] for _, b in bodies]]), {"ops": ops, "bodies": [[s, b.decode("latin-1")] for s, b in bodies]}


def c23(rnd, w):
    from spexsrv.application import app as A
    from spexsrv.application.report_view import get_erroneous_figures

    bodies = [render(html_doc(rnd), rnd) for _ in range(rnd.choice((1, 1, 2)))]
    bad = []

    async def go():
        async with A.app.test_app():
            c = A.app.test_client()
            for body in bodies:
                u = await upload(c, "a.html", body)
                url = url_of(u)
                exp = w.direct("a.html", body)
                if url is None or exp is None:
                    continue
                nums, figs = figures_of(exp[0], body)
                for q in ("", "?bundle=1"):
                    st, page = await get(c, url + q)
                    if st != 200:
                        bad.append(f"report: status {st}")
                        continue
                    ids, got, rep = (page_data(page, k) for k in ("erroneous_figure_ids", "report_html", "report"))
                    if rep != exp[0]:
                        bad.append("the report's entities and entries are not those of the JSON model")
                    if ids is None or sorted(ids) != sorted(nums):
                        bad.append(f"figures with issues {ids}, expected {sorted(nums)}")
                    bad.extend(compare(got, figs))
        return None

    def compare(got, figs):
        if got is None or sorted(got) != sorted(figs):
            return [f"tables shown for figures {sorted(got or ())}, expected {sorted(figs)}"]
        return [f"figure {k} shows {got[k][:300]!r}" for k in figs if shown(got[k]) != [figs[k]]]

    run(go())
    # the selection itself, for any figure ids
    p = w.cwd / "f.html"
    p.write_bytes(bodies[0])
    src = table_sources(bodies[0])
    asked = [rnd.choice(list(src) + ["1", "7", "7-2", "a", "FIG_ID_MISSING[0]", "", "'", "1 or 1", "@id", "3_x_1", "7_1"]) for _ in range(rnd.randint(0, 4))]
    asked = list(dict.fromkeys(a + rnd.choice(("", "_3", "_0_1")) for a in asked))
    got = get_erroneous_figures(asked, p)
    want = {a: src[a.split("_")[0]] for a in asked if a.split("_")[0] in src}
    bad += compare(got, want)
    return bad, bodies[0].decode()[:3000], {"bodies": [b.decode() for b in bodies], "asked": asked}


CHECKS = {"C21": c21, "C22": c22, "C23": c23}


def run_one(pid, seed, scratch):
    drop(scratch)
    rnd = random.Random(f"server{pid}/{seed}")
    w = World(scratch)
    bad, sample, data = CHECKS[pid](rnd, w)
    v = None
    if bad:
        v = dict(data, complaints=bad[:4], seed=seed)
    return True, sample, v
