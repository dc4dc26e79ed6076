"""Runs the real stages of /repo in a scratch directory."""
import contextlib
import json
import os
import shutil
import sys
import tempfile
from pathlib import Path

REPO = Path(os.environ.get("SPEX_REPO", "/repo"))


def setup():
    """import the code under test from /repo's working tree"""
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


@contextlib.contextmanager
def quiet():
    """no console output of the code under test"""
    sys.stdout.flush()
    with open(os.devnull, "w") as dn, contextlib.redirect_stderr(dn), contextlib.redirect_stdout(dn):
        yield


_ready = False


def load():
    global _ready
    if _ready:
        return
    setup()
    import spex.log  # noqa: F401  (writes spex.log into the cwd)
    from loguru import logger

    logger.remove()
    _ready = True


class Scratch:
    def __init__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.path = Path(tempfile.mkdtemp(prefix="spexrt", dir=base))

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def stage2(scratch, html, skip=True, ignore=()):
    """run parse_spec on an HTML model; observable result as plain data"""
    load()
    from spex.jsonspec.lint import Code
    from spex.jsonspec.parserargs import ParserArgs
    from spex.parse import parse_spec

    src = scratch.path / "doc.html"
    out = scratch.path / "out"
    out.mkdir(exist_ok=True)
    dst = out / "doc.json"
    if dst.exists():
        dst.unlink()
    src.write_text(html, encoding="utf-8")
    args = ParserArgs(output_dir=out, skip_fig_on_error=skip, lint_codes_ignore=[Code[c] for c in ignore])
    err = None
    with quiet():
        try:
            for _ in parse_spec(src, args):
                pass
        except Exception as e:  # noqa: BLE001
            err = e
    try:
        model = json.loads(dst.read_text(encoding="utf-8"))
    except Exception as e:  # noqa: BLE001
        model = {"meta": {}, "entities": [], "unreadable": repr(e)}
    m = model["meta"]
    lint = m.get("lint")
    return {
        "spec": m.get("specification"), "rev": m.get("revision"), "entities": model["entities"],
        "failed": err is not None, "error": repr(err) if err else None, "meta": m,
        "lint": None if lint is None else [[x.get("code"), x.get("fig"), x.get("row"), x.get("context")] for x in lint],
        "raw_lint": lint, "unreadable": model.get("unreadable"),
    }
