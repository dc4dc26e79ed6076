"""Which contracts and which generated-input checks decide which property."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
CONTRACT_MODULES = ["vspec.contracts_struct", "vspec.contracts_value", "vspec.contracts_doc", "vspec.contracts_out", "vspec.contracts_docx", "vspec.contracts_rows", "vspec.contracts_srv", "vspec.contracts_quirks"]

S2 = "rt.stage2"
# property -> [(module, number of generated cases, time limit in seconds)]  (quick tier)
SEARCH = {f"C{n:02}": [(S2, 6000, 14)] for n in range(1, 12)}
OUT = "rt.output"
SEARCH.update({c: [(OUT, 6000, 20)] for c in ("C12", "C13", "C14", "C15", "C24")})
DX = "rt.docx"
SEARCH.update({c: [(DX, 6000, 25)] for c in ("C16", "C17", "C18", "C19", "C20")})
SV = "rt.server"
SEARCH.update({c: [(SV, 4000, 25)] for c in ("C21", "C22", "C23")})

PROOFS = {}  # None: the contracts whose `props` name the property

ROOTS = ("__call__", "validate_fields", "parse_spec", "DocumentParser.", "row_iter", "main", "add_issue", "to_json", "html_to_spec_doc", "get_parser", "validate_json", "FileWriter.__exit__", "lemma")


def is_root(name):
    return any(r in name for r in ROOTS)


ENGINE = [
    "pyvc: the verification-condition generator of /verif/pyvc (symbolic interpreter of the Python subset used, loop rule by invariant inference over recursive definitions)",
    "z3 5.3.2 as the deciding back end (cvc5 1.1.2 where z3 answers unknown; every verdict is cross-checked by cvc5 in the thorough tier)",
    "CPython's ast of the functions under contract, read from /repo on every run; nothing is extracted or rewritten",
    "strings are an uninterpreted sort: str methods, regular expressions and lxml are uninterpreted functions which code and specification share, evaluated by CPython on literals",
    "Python integers are mathematical integers (exact in Python)",
]
ASSUME = [
    "lxml: xpath()/find()/tostring() are pure functions of the element and the query, results are arbitrary",
    "loguru logging and traceback printing have no effect on the result",
    "no asynchronous exceptions (KeyboardInterrupt, MemoryError)",
    "generators are consumed in order and to the end, as every caller in /repo does",
]


def trusted_base(pid):
    return ENGINE


SERVER = [
    "the web framework is modelled: routing, form parsing, abort, url_for, send_file and the response stream behave as documented; the stream is consumed to its end (clients which disconnect are not modelled)",
    "other requests run between the steps of a stream only; what spec_parse does after the conversion (two copies, one entry) happens without a step in between",
    "the hash function is free of collisions, files of different names in one directory are different, a new TemporaryDirectory exists and is used by nobody else",
    "templates are not verified: render_template is an effect with the arguments of the report",
]


SCHEMA = ["jsonschema accepts and rejects as the interpreter of vspec/schema.py does (keywords used by the published schema, JSON schema 2020-12); compared on generated models",
          "the form of what is written is proved; the written text is json.dumps of it"]


def assumptions(pid):
    return ASSUME + (SERVER if pid in ("C21", "C22", "C23") else []) + (SCHEMA if pid == "C14" else [])


RULES = {
    S2: "random HTML models (bits/bytes/value/other tables, nested tables, row/column spans, malformed titles, ranges, labels and cells, vocabulary extended by the string and integer "
        "constants of /repo's source) run through the real second stage and compared with the executable specification; non-trivial: the run yields a field or a lint issue; distinct by document text",
    OUT: "random HTML models as for rt.stage2, run through parse_spec (files in a scratch directory, file names, progress, ignored codes, truncated documents, damaged models) and through the command line "
         "(order and kinds of inputs, options); non-trivial: the run yields a field or a lint issue; distinct by document text",
    DX: "random docx files (grids of merges, nested tables, lists of all levels, runs, hyperlinks, fields, styles with inheritance and aliases, on/off spellings, vocabulary extended by the string constants of /repo's source) "
        "run through the real first stage; non-trivial: the document has a row; distinct by the document's content",
    SV: "random sequences of uploads (HTML and docx models, damaged documents, hostile names, external entities, concurrent uploads) and requests against the real application through quart's test client, "
        "as an unprivileged user with TMPDIR inside a scratch directory; distinct by the sequence",
}


def rule(pid):
    return " / ".join(RULES.get(m, m) for m, _, _ in SEARCH.get(pid, []))


def level(pid):
    return "proof"


def _findings():
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for l in f:
            if l.startswith("known: "):
                out.append({"status": "known", **json.loads(l[7:])})
    return out


def findings(pid):
    return [f["what"] for f in _findings() if f["property"] == pid and f["status"] == "known"]


def known(pid, bad):
    """the listed finding which explains this violation, if any"""
    for f in _findings():
        if f["property"] == pid and f["status"] == "known" and all(re.search(f["match"], c, re.S) for c in bad.get("complaints", ["-"])):
            return f["what"]
    return None

# the property is about the form of the results only: obligations about anything else may stay open
FORM_ONLY = {"C14"}
FORM = ("form of", "declared shape")
TECH = {}
NOTES = {}

