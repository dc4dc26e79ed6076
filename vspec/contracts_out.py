"""Contracts of the output side: lint entries, writer, conversion (C12-C15)."""
import argparse
import io
import json
import sys
from pathlib import Path

import jsonschema
import spex.__main__
import z3
from lxml import etree

from pyvc import libmodels, models
from pyvc.core import Atom, Blk, BoolS, ObjS, PDict, PList, PObj, SBool, SOpq, StrS, T, Unit, ufn
from pyvc.mark import opaque, prim
from pyvc.verify import Contract
from spex.jsonspec.lint import Code, LintEntry, LintErr
from spex.jsonspec.document import DocumentParser
from spex.jsonspec.extractors.structtable import BitsTableExtractor, BytesTableExtractor
from spex.jsonspec.parse import SpecDocument
from spex.xml import Xpath
from . import base, contracts_doc, doc, schema, structs, world, xmlspec
from .base import Fold, fold
from .contracts_doc import Stand

L = "spex.jsonspec.lint:"
D = "spex.jsonspec.document:"
CTX = T.Map(T.str)


def _raw_entry(I, err, fig, msg, row, ctx):
    return PObj(I.ctx, LintEntry, {"err": err, "fig": fig, "msg": msg, "row": row, "ctx": ctx})


@prim(_raw_entry)
def raw_entry(err, fig, msg, row, ctx):
    raise NotImplementedError


def entry(err, fig, msg, row, ctx):
    """an issue is recorded with the message of its code unless another one is given; it names a
    figure, and a row if it concerns a label, value or range"""
    if fig == "":
        raise AssertionError("figure")
    if row is None and err.value.name[0] in ("R", "L", "V"):
        raise AssertionError("row")
    return raw_entry(err, fig, err.value.value if msg is None or msg == "" else msg, row, {} if ctx is None else ctx)


def add_issue(self, err, fig, *, msg=None, row_key=None, ctx=None):
    self._lint_issues.append(entry(err, fig, msg, row_key, ctx))


def linter(B):
    from spex.jsonspec.document import DocLinter

    return B.raw(DocLinter, _lint_issues=B.seq(T.Opq("lintentry"), "issues"))


for e in LintErr:
    Contract(D + "DocLinter.add_issue", add_issue,
             lambda B, e=e: ([linter(B), e, B.str("fig")], {"msg": B(T.opt(T.str), "msg"), "row_key": B(T.opt(T.str), "row"), "ctx": B(T.opt(T.Opq("dict")), "ctx")}),
             variant=e.name, props=["C12"], use=False)


def lint_entries(self):
    return self._lint_issues


Contract(D + "DocLinter.lint_entries", lint_entries, lambda B: ([linter(B)], {}), props=["C12"], use=False)


def to_json(self):
    d = {"code": self.err.value.name, "msg": self.msg, "fig": self.fig, "context": self.ctx}
    if self.row is not None:
        d["row"] = self.row
    return d


def entry_of(B, e):
    return B.raw(LintEntry, err=e, fig=B.str("fig"), msg=B.str("msg"), row=B(T.opt(T.str), "row"), ctx=B(T.Map(T.Opq("json")), "ctx"))


for e in LintErr:
    Contract(L + "LintEntry.to_json", to_json, lambda B, e=e: ([entry_of(B, e)], {}), variant=e.name, returns=schema.ISSUE, props=["C12", "C14"], use=False)
    Contract(L + "LintEntry.code", lambda self: self.err.value.name, lambda B, e=e: ([entry_of(B, e)], {}), variant=e.name, props=["C12"], use=False)


# writer (C13) ----------------------------------------------------------------
W = "spex.writer:"


def _open_for(I, path):
    return world._open(I, path, "w")


@prim(_open_for)
def create(path):
    return open(path, "w", encoding="utf-8")


def _dump_to(I, d, f):
    world._dump(I, d, f)


@prim(_dump_to)
def dump(d, f):
    json.dump(d, f, ensure_ascii=False)


def target(out, src):
    return out / f"{src.stem}.json"


def writer_init(self, output, src):
    self._output = target(output, src)
    self._src = src
    self._dst = create(self._output)
    self._doc = {"meta": {}, "entities": []}


def write_meta(self, key, val):
    self._doc["meta"][key] = val


def write_entity(self, entity):
    self._doc["entities"].append(entity)


def writer_exit(self, exc_type, exc_val, exc_tb):
    """the model as far as it was written becomes the content of the file, once; failures pass"""
    f = self._dst
    self._dst = None
    if f is not None:
        dump(self._doc, f)
        f.close()
    if exc_val is not None:
        raise exc_val


def fwriter(B, closed=False):
    from spex.writer import FileWriter

    d = B.I.lift({"meta": {}, "entities": []})
    d.entries[0][1] = B(T.Map(T.str), "meta")
    d.entries[1][1] = B.seq(structs.ENTITY, "entities")
    o = B.opq("path", "out")
    return B.raw(FileWriter, _output=o, _src=B.opq("path", "src"), _dst=None if closed else B.opq("file", "dst"), _doc=d)


Contract(W + "FileWriter.__init__", writer_init, lambda B: ([B.raw(__import__("spex.writer").writer.FileWriter), B.opq("path", "out"), B.opq("path", "src")], {}), props=["C13"], use=False)
Contract(W + "FileWriter.write_meta", write_meta, lambda B: ([fwriter(B), B.str("key"), B.opq("json", "val")], {}), props=["C13"], use=False)
Contract(W + "FileWriter.write_entity", write_entity, lambda B: ([fwriter(B), B(structs.ENTITY, "entity")], {}), props=["C13"], use=False)
for closed in (False, True):
    for failed in (False, True):
        Contract(W + "FileWriter.__exit__", writer_exit,
                 lambda B, closed=closed, failed=failed: ([fwriter(B, closed)] + ([ValueError, B.raw(ValueError, args=()), None] if failed else [None, None, None]), {}),
                 variant=f"{'closed' if closed else 'open'} {'failed' if failed else 'completed'}", props=["C13"], use=False)
Contract(W + "FileWriter.path", lambda self: self._output, lambda B: ([fwriter(B)], {}), props=["C13"], use=False)


# the conversion of one document (C12, C13, C15) --------------------------------
P = "spex.parse:"


class StandDoc:
    """a document: arbitrary metadata, and a parser which yields arbitrary entities and then
    completes or fails; the linter holds arbitrary entries afterwards"""

    def __init__(self, path):
        self.key, self.rev, self.path = doc_key(path), doc_rev(path), path

    def get_parser(self, args, quirks_map=None):
        return StandParser(self.path, args)


class StandParser:
    def __init__(self, path, args):
        self.path, self.args = path, args
        self.num_figures = doc_figures(path)
        self.linter = StandLinter(path)

    def parse(self):
        yield from doc_entities(self.path, self.args.skip_fig_on_error)
        if doc_fails(self.path, self.args.skip_fig_on_error):
            raise ValueError("figure")


class StandLinter:
    def __init__(self, path):
        self.path = path

    def lint_entries(self):
        return doc_entries(self.path)


@opaque(T.str)
def doc_key(path):
    raise NotImplementedError


@opaque(T.str)
def doc_rev(path):
    raise NotImplementedError


@opaque(T.int)
def doc_figures(path):
    raise NotImplementedError


@opaque(T.bool)
def doc_fails(path, skip):
    raise NotImplementedError


@opaque(T.bool)
def doc_unusable(path):
    raise NotImplementedError


@opaque(T.List(T.Opq("json", "entity")))
def doc_entities(path, skip):
    raise NotImplementedError


@opaque(T.List(T.Opq("lintentry")))
def doc_entries(path):
    raise NotImplementedError


def stand_open(path):
    if doc_unusable(path):
        raise ValueError("document")
    return StandDoc(path)


def rend_init(self, docx_path, out_dir=None):
    if first_unusable(docx_path):
        raise ValueError("docx")
    self.docx, self.out = docx_path, out_dir


@opaque(T.bool)
def first_unusable(path):
    raise NotImplementedError


@opaque(T.bool)
def first_fails(path):
    raise NotImplementedError


@opaque(T.List(T.int))
def first_figures(path):
    raise NotImplementedError


@opaque(T.int)
def first_count(path):
    raise NotImplementedError


def rend_path(self):
    return html_target(self.out, self.docx)


def html_target(out, src):
    return out / f"{src.stem}.html"


@prim(lambda I, p: I.effect("html", p))
def write_html(path):
    raise NotImplementedError


def rend_generate(self, yield_progress=False):
    if yield_progress:
        yield from first_figures(self.docx)
    if first_fails(self.docx):
        raise ValueError("table")
    write_html(rend_path(self))


R = "spex.htmlspec.htmlrenderer:SpexHtmlRenderer."


def abstract_document(I, env, B):
    env.contracts = dict(env.contracts)
    env.contracts["spex.jsonspec.parse:open_doc"] = Stand(stand_open)
    env.contracts[R + "__init__"] = Stand(rend_init)
    env.contracts[R + "generate"] = Stand(rend_generate)
    env.contracts[R + "html_path"] = Stand(rend_path)
    env.contracts[R + "num_figures"] = Stand(lambda self: first_count(self.docx))
    env.contracts[R + "__del__"] = Stand(lambda self: None)


def convert(spec, args, yield_progress=False):
    if spec.suffix == ".docx":
        if first_unusable(spec):
            raise ValueError("docx")
        if yield_progress:
            n = first_count(spec)
            yield from [("html", i, n) for i in first_figures(spec)]
        if first_fails(spec):
            raise ValueError("table")
        write_html(html_target(args.output_dir, spec))
        spec = html_target(args.output_dir, spec)
    out = target(args.output_dir, spec)
    f = create(out)
    model = {"meta": {}, "entities": []}
    if doc_unusable(spec):
        dump(model, f)
        f.close()
        raise ValueError("document")
    model["meta"]["specification"] = doc_key(spec)
    model["meta"]["revision"] = doc_rev(spec)
    model["meta"]["format version"] = 1
    model["meta"]["spex version"] = version()
    ents = doc_entities(spec, args.skip_fig_on_error)
    if yield_progress:
        n = doc_figures(spec)
        yield from [("json", i, n) for i in range(len(ents))]
    model["entities"] = ents
    if doc_fails(spec, args.skip_fig_on_error):
        dump(model, f)
        f.close()
        raise ValueError("figure")
    ignored = set(c.name for c in args.lint_codes_ignore)
    model["meta"]["lint"] = [e.to_json() for e in doc_entries(spec) if e.code not in ignored]
    dump(model, f)
    f.close()
    return out


@prim(lambda I: __import__("spex").__version__)
def version():
    raise NotImplementedError


A = world.A
A[("lintentry", ".code")] = world.strfn("lintentry.code")
A[("lintentry", "to_json")] = lambda I, e: SOpq("json", ufn("lintentry.json", ObjS, ObjS)(e.t), "issue")
A[("code", ".name")] = world.strfn("code.name")
libmodels.OPQ_CLASS["code"] = Code


def pargs(B):
    from spex.jsonspec.parserargs import ParserArgs

    return B.raw(ParserArgs, output_dir=B.opq("path", "out"), lint_codes_ignore=B.seq(T.Opq("code"), "ignored"), skip_fig_on_error=B.bool("skip"),
                 validate_json=B.bool("validate"), verbose=B.bool("verbose"))


for prog in (False, True):
    Contract(P + "parse_spec", convert, lambda B, prog=prog: ([B.opq("path", "spec"), pargs(B)], {"yield_progress": prog}), variant="progress" if prog else "plain",
             setup=abstract_document, written=schema.written(T.Opq("json", "entity"), T.Opq("json", "issue")), props=["C12", "C13", "C14", "C15"], use=False)


Contract(W + "StdoutWriter.write_meta", write_meta, lambda B: ([stdwriter(B), B.str("key"), B.opq("json", "val")], {}), props=["C13"], use=False)
Contract(W + "StdoutWriter.write_entity", write_entity, lambda B: ([stdwriter(B), B(structs.ENTITY, "entity")], {}), props=["C13"], use=False)
Contract(W + "StdoutWriter.path", lambda self: None, lambda B: ([stdwriter(B)], {}), props=["C13"], use=False)


def stdout_exit(self, exc_type, exc_val, exc_tb):
    if exc_val is not None:
        raise exc_val


def stdwriter(B):
    from spex.writer import StdoutWriter

    o = fwriter(B)
    return B.raw(StdoutWriter, _src=o.attrs["_src"], _doc=o.attrs["_doc"])


for failed in (False, True):
    Contract(W + "StdoutWriter.__exit__", stdout_exit,
             lambda B, failed=failed: ([stdwriter(B)] + ([ValueError, B.raw(ValueError, args=()), None] if failed else [None, None, None]), {}),
             variant="failed" if failed else "completed", props=["C13"], use=False)


# metadata and special rules (C15) ----------------------------------------------
def _tree(I, html):
    return world._parse(I, models.CTOR[io.StringIO](I, html), world._parser(I, resolve_entities=False))


@prim(_tree)
def tree_of(html):
    """the document's tree; entities are not resolved"""
    return etree.parse(io.StringIO(html), etree.XMLParser(resolve_entities=False))


def metadata(html):
    t = tree_of(html)
    spec = xmlspec.xp(t, "./head/meta/@data-spec")
    if len(spec) == 0:
        raise RuntimeError("no specification")
    rev = xmlspec.xp(t, "./head/meta/@data-revision")
    if len(rev) == 0:
        raise RuntimeError("no revision")
    return SpecDocument(tree=t, key=spec[0].lower(), rev=rev[0].lower())


J = "spex.jsonspec.parse:"
Contract(J + "html_to_spec_doc", metadata, lambda B: ([B.str("html")], {}), props=["C15", "C21"])
Contract(J + "open_doc", lambda spec: metadata(spec.read_text()), lambda B: ([B.opq("path", "spec")], {}), props=["C15"], use=False)
Contract("spex.xml:xml_parser", lambda: safe_parser(), lambda B: ([], {}), props=["C21"], use=False)


@prim(lambda I: world._parser(I, resolve_entities=False))
def safe_parser():
    raise NotImplementedError


for n, q in (("attrs", "./head/meta/@data-spec"), ("attr_first", "@w:val"), ("attr_first_req", "./w:tcPr/w:vMerge/@w:val")):
    Contract("spex.xml:Xpath." + n, getattr(xmlspec, n), lambda B, q=q: ([Xpath, B.opq("elem", "e"), q], {}), props=["C15", "C16"])


def rules(I, p):
    """what of a parser depends on the document's metadata"""
    p = I.resolve(p)
    out = {"args": I.getattr(p, "args"), "doc": I.getattr(p, "doc"), "spec": I.getattr(p, "spec"), "revision": I.getattr(p, "revision")}
    for n in ("label_overrides", "brief_overrides"):
        v = I.resolve(I.getattr(p, n))
        d = dict(v) if isinstance(v, dict) else {k: x for k, x in v.entries}
        out[n] = tuple(sorted((*k, x) for k, x in d.items()))
    ov = I.resolve(I.getattr(p, "fig_extractor_overrides"))
    ov = dict(ov) if isinstance(ov, dict) else {k: x for k, x in ov.entries}
    out["figures"] = tuple(sorted((k, contracts_doc.kind_of(c)) for k, c in ov.items()))
    return I.lift(out)


def special(key, rev):
    for (k, r), q in doc.QUIRKS.items():
        if key == k and rev == r:
            return q
    return {}


def any_parser(self, args, quirks_map=None):
    q = special(self.key, self.rev)
    p = DocumentParser(args, self.tree, self.key, self.rev)
    return Ruled(p, q.get("labels", {}), {**{k: v[0] for k, v in q.get("split", {}).items()}, **{k: "bytes" for k in q.get("ignore_rows", {})}})


class Ruled:
    def __init__(self, p, labels, figs):
        self.args, self.doc, self.spec, self.revision = p.args, p.doc, p.spec, p.revision
        self.label_overrides, self.brief_overrides = labels, {}
        self.fig_extractor_overrides = {k: {"bits": BitsTableExtractor, "bytes": BytesTableExtractor}[v] for k, v in figs.items()}


def spec_doc(B):
    return B.raw(SpecDocument, tree=B.opq("elem", "tree"), key=B.str("key"), rev=B.str("rev"))


Contract(J + "SpecDocument.get_parser", any_parser, lambda B: ([spec_doc(B), pargs(B)], {}), view=rules, props=["C15"], use=False)


# validation (C14) ----------------------------------------------------------------
@prim(lambda I: world.read_text(I, world.path_join(I, world._files(I, "spex.resources"), "stage2.schema.json")))
def schema_text():
    raise NotImplementedError


def validation(document_path):
    text = document_path.read_text()
    jsonschema.validate(json.loads(text), json.loads(schema_text()))


V = "spex.validate:"
Contract(V + "validate_json", validation, lambda B: ([B.opq("path", "document")], {}), props=["C14"], use=False)

# lemmas about the published schema
SCH = "vspec.schema:"
Contract(SCH + "model_accepted", lambda m: True, lambda B: ([B(schema.MODEL, "model")], {}), variant="lemma: models of the shapes of the contracts are accepted", props=["C14"], use=False)
for _what, _shape in schema.ANYTHING.items():
    Contract(SCH + "rejects_" + _what, lambda v: True, lambda B, _shape=_shape: ([B(_shape, "v")], {}), variant="lemma: defects are rejected", props=["C14"], use=False)


# the command line (C24) ------------------------------------------------------------
M = "spex.__main__:"


def input_file(arg):
    p = Path(arg)
    if not p.exists() or not p.is_file():
        raise RuntimeError("no such file")
    return p


def output_dir(arg):
    p = Path(arg)
    if not p.exists():
        p.mkdir(parents=True, exist_ok=True)
    if not p.is_dir():
        raise RuntimeError("not a directory")
    return p


Contract(M + "arg_input", input_file, lambda B: ([B.str("arg")], {}), props=["C24"], use=False)
Contract(M + "arg_output", output_dir, lambda B: ([B.str("arg")], {}), props=["C24"], use=False)


def parser_args(self, *, output_dir, lint_codes_ignore=None, skip_fig_on_error=False, validate_json=False, verbose=False):
    if not output_dir.is_dir():
        raise ValueError("output directory")
    self.output_dir, self.lint_codes_ignore, self.skip_fig_on_error = output_dir, lint_codes_ignore or [], skip_fig_on_error
    self.validate_json, self.verbose = validate_json, verbose


def pa_args(B):
    from spex.jsonspec.parserargs import ParserArgs

    return [B.raw(ParserArgs)], dict(output_dir=B.opq("path", "out"), lint_codes_ignore=B.seq(T.Opq("code"), "codes"), skip_fig_on_error=B.bool("skip"),
                                     validate_json=B.bool("validate"), verbose=B.bool("verbose"))


Contract("spex.jsonspec.parserargs:ParserArgs.__init__", parser_args, pa_args, props=["C24"], use=False)


@opaque(T.bool)
def conv_fails(path, skip):
    raise NotImplementedError


@opaque(T.bool)
def model_invalid(path):
    raise NotImplementedError


@opaque(T.opt(T.Opq("path")))
def model_path(path):
    raise NotImplementedError


@prim(lambda I, p, a: I.effect("convert", I.resolve(p), I.getattr(a, "output_dir"), I.getattr(a, "skip_fig_on_error"), I.getattr(a, "lint_codes_ignore")))
def note_convert(path, args):
    raise NotImplementedError


def stand_convert(spec, args, yield_progress=False):
    yield from ()
    note_convert(spec, args)
    if conv_fails(spec, args.skip_fig_on_error):
        raise ValueError("conversion")
    return model_path(spec)


def stand_validate(document_path):
    if model_invalid(document_path):
        raise ValueError("schema")


def main_init(skip, validate, out, codes):
    return {"trace": []}


def main_step(skip, validate, out, codes, st, spec):
    if spec.suffix != ".html" and spec.suffix != ".docx":
        return ("STOP", st)
    st["trace"].append(("convert", spec, out, skip, codes))
    if conv_fails(spec, skip):
        return ("STOP", st)
    m = model_path(spec)
    if validate and m is not None and model_invalid(m):
        return ("STOP", st)
    return st


MAIN = Fold("inputs", {"trace": T.List(T.Tuple((T.str, T.Opq("path"), T.Opq("path"), T.bool, T.List(T.Opq("code")))))}, main_init, main_step)


def _namespace(I):
    B = I.B
    import argparse

    return B.raw(argparse.Namespace, skip_fig_on_error=B.bool("skip"), input=B.seq(T.Opq("path"), "inputs"), output=B(T.opt(T.Opq("path")), "output"),
                 validate_json=B.bool("validate"), verbose=B.bool("verbose"), lint_ignore=B.seq(T.Opq("code"), "codes"))


@prim(_namespace)
def command_line():
    """arbitrary values of the options"""
    raise NotImplementedError


@prim(lambda I, tr: (I.on_write(I.effects, "segs"), setattr(I.effects, "segs", I.effects.segs + list(I.resolve(tr).segs)))[0])
def done(trace):
    raise NotImplementedError


def program():
    a = command_line()
    out = a.output
    if out is None:
        out = Path.cwd()
    if not out.is_dir():
        raise ValueError("output directory")
    st = fold(MAIN, a.input, a.skip_fig_on_error, a.validate_json, out, a.lint_ignore)
    done(st["trace"])
    if st["stopped"]:
        sys.exit(1)


def abstract_program(I, env, B):
    I.B = B
    env.contracts = dict(env.contracts)
    env.contracts[P + "parse_spec"] = Stand(stand_convert)
    env.contracts[V + "validate_json"] = Stand(stand_validate)
    mod = sys.modules["spex.__main__"]
    for c in vars(mod).values():
        if isinstance(c, type) and issubclass(c, argparse.ArgumentParser):
            env.ctors[f"{c.__module__}.{c.__qualname__}"] = lambda I, a, k: SOpq("cli", z3.Const("cli", ObjS))


A[("cli", "add_argument")] = lambda I, c, *a, **k: None
A[("cli", "parse_args")] = lambda I, c: _namespace(I)

Contract(M + "main", program, lambda B: ([], {}), setup=abstract_program, exits=True,
         folds=lambda I, B, a: [(B.seq(T.Opq("path"), "inputs"), MAIN.at(*main_env(I, B)))], props=["C24"], use=False)


def main_env(I, B):
    a = _namespace(I)
    o = I.getattr(a, "output")
    o = I.resolve(o)
    if o is None:
        o = world.as_path(I, "cwd")
    return B.bool("skip"), B.bool("validate"), o, B.seq(T.Opq("code"), "codes")
