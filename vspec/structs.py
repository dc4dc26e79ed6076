"""Specification of structure (bits/bytes) tables."""
from .base import *  # noqa
from .xmlspec import NotFound, txt, xp


def issue(self, code, row_key=None, ctx=None):
    self.linter.issue(code, self.fig_id, row_key, ctx)


# -- C01 -------------------------------------------------------------------
def parse_range(self, value, row_key):
    m = RANGE.match(value)
    if m is None:
        issue(self, "R1001", row_key)
        return value
    high = int(m.group("high"))
    low = high
    if m.group("low") is not None:
        low = int(m.group("low"))
    if low > high:
        issue(self, "R1002", row_key)
    return {"low": low, "high": high}


def parse_dynamic_range(self, field_range):
    m = DYNRANGE.match(field_range.replace("\n", "").replace(" ", ""))
    if m is None:
        issue(self, "R1001", field_range)
        return field_range
    return {"low": m.group("high"), "high": m.group("low")}


def range_to_row_key(self, val):
    if isinstance(val, dict):
        return str(val["low"])
    return val


# -- C02 / C03 ---------------------------------------------------------------
def numeric(f):
    """the numeric range of a field, or None"""
    if f["label"] == ELLIPSIS or isinstance(f["range"], str):
        return None
    return f["range"]


ISSUE = T.Tuple((T.str, T.str, T.opt(T.str), T.rec(opt=("label",), label=T.str)))
BOUND = T.union(T.int, T.str)
RANGE_SHAPE = T.rec(low=BOUND, high=BOUND)


def order_init(fields):
    return {"prev_range": numeric(fields[0])}


def order_step(fields, st, f):
    r = numeric(f)
    p = st["prev_range"]
    if r is not None and p is not None:
        a = p["low"]
        b = r["low"]
        if isinstance(a, int) and isinstance(b, int) and a > b:
            return ("STOP", {"prev_range": p})
    return {"prev_range": r}


ORDER = Fold("row_order", {"prev_range": T.opt(RANGE_SHAPE)}, order_init, order_step)


def check_init(fig_id):
    return {"labels": set(), "prev_range": None, "issues": []}


def check_step(fig_id, st, i, f):
    label = f["label"]
    r = numeric(f)
    issues = st["issues"]
    labels = st["labels"]
    p = st["prev_range"]
    if i == 0:
        labels.add(label)
        return {"labels": labels, "prev_range": r, "issues": issues}
    if label not in {RESERVED, ELLIPSIS}:
        if label in labels:
            issues.append(("L1002", fig_id, row_key_of(f["range"]), {"label": label}))
        labels.add(label)
    if r is not None and p is not None:
        a = p["high"]
        b = r["low"]
        if isinstance(a, int) and isinstance(b, int):
            if a >= b:
                issues.append(("T1001", fig_id, row_key_of(r), dict()))
            elif a + 1 != b:
                issues.append(("T1002", fig_id, row_key_of(r), dict()))
    return {"labels": labels, "prev_range": r, "issues": issues}


def row_key_of(val):
    if isinstance(val, dict):
        return str(val["low"])
    return val


CHECK = Fold("field_checks", {"labels": T.Set(), "prev_range": T.opt(RANGE_SHAPE), "issues": T.List(ISSUE)}, check_init, check_step, indexed=True)


def validate_fields(self, fields):
    if len(fields) < 2:
        return None
    if fold(ORDER, fields, fields)["stopped"]:
        issue(self, "T1004")
        return None
    self.linter.extend(fold(CHECK, fields, self.fig_id)["issues"])
    return None


# -- labels and briefs (C06, C07) -------------------------------------------
SPECIAL = {"RESERVED", "OBSOLETE", ELLIPSIS}


@opaque(T.str)
def acronym(text):
    return "".join(w[0] for w in text.split()).lower()


@opaque(T.str)
def normalize(label):
    return (
        label.lstrip().rstrip().replace(" ", "_").replace("/", "")
        .replace("-", "_").replace("__", "_").upper()
    )


@opaque(T.bool)
def invalid_label(lbl):
    return IDENT.match(lbl) is None and ELLIPSIS_LABEL.match(lbl) is None


@opaque(T.Tuple((T.str, T.opt(T.str))))
def same_column(text):
    """label and lint code for tables without a label column"""
    m = STRUCT_LABEL.match(text)
    if m is None:
        return (acronym(text.split(":", 1)[0]), "L1003")
    a = m.group("acronym")
    if a is not None and a != "":
        return (a, None)
    w = m.group("label")
    if w is not None and w != "":
        if w.upper() in SPECIAL:
            return (w, None)
        return (acronym(w), None)
    return (text, "L1000")


@opaque(T.Tuple((T.str, T.opt(T.str))))
def separate_column(text):
    """label and lint code for tables with a label column"""
    parts = text.split(":", 1)
    if len(parts) == 1:
        return ("".join(w[0] for w in parts[0].split()), "L1003")
    return (parts[0], "L1004" if " " in parts[0] else None)


def struct_label(self, label, row_key):
    """(label, issues)"""
    if self.vghost["same"]:
        lbl, code = same_column(label)
    else:
        lbl, code = separate_column(label)
    if code is not None:
        issue(self, code, row_key)
    lbl = normalize(lbl)
    if invalid_label(lbl):
        issue(self, "L1004", row_key, {"label": lbl})
    return lbl.lower()


@opaque(T.opt(T.str))
def brief_of(content, maxlen=60):
    if content is None or ":" not in content:
        return None
    m = STRUCT_LABEL.match(content)
    if m is None or m.group("brief") is None:
        return None
    b = m.group("brief").rstrip(".").lstrip(" ")
    if len(b) <= maxlen:
        return b
    b = b.split(".", 1)[0]
    return b if len(b) <= maxlen else None


# -- whole table (C04) --------------------------------------------------------
NUMBERS = T.rec(low=T.nat, high=T.nat)
FORMULAS = T.rec(low=T.str, high=T.str)
ELIDED = T.rec(low=T.Const(-1), high=T.Const(-1))
RANGE_VALUE = T.union(T.str, NUMBERS, FORMULAS, ELIDED)
FIELD = T.rec(opt=("brief",), label=T.str, range=RANGE_VALUE, brief=T.str)
VALUE_FIELD = T.rec(opt=("brief",), val=T.str, label=T.str, brief=T.str)


def entity_of(kind, field):
    return T.rec(opt=("title", "parent_fig_id"), type=T.Const(kind), fig_id=T.str, title=T.str, parent_fig_id=T.str, fields=T.List(field))


ENTITY = T.union(entity_of("bits", FIELD), entity_of("bytes", FIELD), entity_of("values", VALUE_FIELD))


@opaque(T.List(T.Opq("elem")))
def rows_of(tbl):
    from . import rows
    return rows.logical_rows(tbl)


def sub_init(self, fig_id, parent):
    return {"out": []}


def sub_step(self, fig_id, parent, st, t):
    st["out"].extend(self.vparse({"fig_id": fig_id, "parent_fig_id": parent}, t))
    if self.vghost["broken"]:
        return ("STOP", st)
    return st


SUB = Fold("sub_tables", {"out": T.List(ENTITY)}, sub_init, sub_step)


@opaque(T.List(ENTITY))
def sub_entities(self, fig_id, parent, data):
    """the entities of all tables nested in a cell, in document order"""
    return fold(SUB, xp(data, "./table"), self, fig_id, parent)["out"]


def is_special(s):
    return s.upper() in SPECIAL or s.lower().startswith("note")


def special_field(content, rng):
    """the field of a reserved, obsolete or elided row; None for notes"""
    if content == ELLIPSIS:
        return {"label": ELLIPSIS, "range": rng}
    if content.upper() == "RESERVED":
        return {"label": RESERVED, "range": rng}
    if content.upper() == "OBSOLETE":
        return {"label": OBSOLETE, "range": rng}
    return None


def handle_special_case(self, content, range):
    return special_field(content, range)


def is_special_case(content):
    return is_special(content)


class Collect:
    """stand-in for the linter inside folds: gathers (code, fig, row, ctx)"""

    def __init__(self, self_, issues):
        self.fig_id = self_.fig_id
        self.vghost = self_.vghost
        self.issues = issues
        self.linter = self

    def issue(self, code, fig, row_key=None, ctx=None):
        self.issues.append((code, fig, row_key, dict() if ctx is None else ctx))


def struct_init(self):
    return {"fields": [], "is_dynamic_table_mode": False, "issues": [], "nested": [], "failed": False, "at": None}


def cell_texts(self, row):
    """texts of the range, content and label cells, or None"""
    r, l, c = self.vghost["cols"]
    rs = xp(row, "./td[" + str(r + 1) + "]")
    if len(rs) == 0:
        return None
    cs = xp(row, "./td[" + str(c + 1) + "]")
    if len(cs) == 0:
        return None
    ls = xp(row, "./td[" + str(l + 1) + "]/p[1]")
    if len(ls) == 0:
        return None
    return (txt(rs[0]), txt(cs[0]), txt(ls[0]))


@opaque(T.opt(T.str))
def colspan_text(row):
    q = xp(row, "./*[@colspan]/*")
    if len(q) == 0:
        return None
    return "".join([txt(x) for x in q])


def marks_dynamic(row):
    t = colspan_text(row)
    return t is not None and "List" in t


def quirk_row(self, st, row):
    """rows without the required cells, in figures known to be malformed"""
    kind, text = self.vghost["quirk"][:2]
    if kind == "ignore" and txt(row).endswith(text):
        return st
    if kind == "split" and txt(row).lstrip().lower().startswith(text):
        st["failed"] = False
        st["at"] = row
        return ("STOP", st)
    st["failed"] = True
    return ("STOP", st)


def struct_step(self, st, row):
    fields, issues = st["fields"], st["issues"]
    if len(xp(row, "./th")) > 0:
        if marks_dynamic(row):
            st["is_dynamic_table_mode"] = True
        return st
    c = cell_texts(self, row)
    if c is None:
        t = txt(row).lower()
        if t.startswith(ELLIPSIS):
            fields.append({"label": ELLIPSIS, "range": {"low": -1, "high": -1}})
            return st
        if t.startswith("note"):
            st["failed"] = False
            return ("STOP", st)
        if self.vghost["quirk"] is not None:
            return quirk_row(self, st, row)
        if len(xp(row, "./td")) == 1:
            return st
        st["failed"] = True
        return ("STOP", st)
    rng_txt, content, label = c
    col = Collect(self, issues)
    if is_special(rng_txt):
        return st
    if is_special(label) or is_special(content):
        f = special_field(content if is_special(content) else label, parse_range(col, rng_txt, rng_txt))
        if f is not None:
            fields.append(f)
        return st
    if st["is_dynamic_table_mode"]:
        rng = parse_dynamic_range(col, rng_txt)
    else:
        rng = parse_range(col, rng_txt, rng_txt)
    row_key = row_key_of(rng)
    lbl = struct_label(col, label, row_key)
    brief = brief_of(content, 60)
    cell = xp(row, "./td[" + str(self.vghost["cols"][2] + 1) + "]")[0]
    st["nested"].extend(sub_entities(self, self.fig_id + "_" + row_key, self.fig_id, cell))
    if self.vghost["broken"]:
        st["failed"] = True
        return ("STOP", st)
    if brief:
        fields.append({"label": lbl, "range": rng, "brief": brief})
    else:
        fields.append({"label": lbl, "range": rng})
    return st


STRUCT = Fold("struct_rows", {
    "fields": T.List(FIELD), "is_dynamic_table_mode": T.bool, "issues": T.List(ISSUE),
    "nested": T.List(ENTITY), "failed": T.bool, "at": T.opt(T.Opq("elem"))}, struct_init, struct_step)


def struct_table(self):
    """returns the row at which another figure starts inside of this one, if any"""
    st = fold(STRUCT, rows_of(self.tbl), self)
    yield from st["nested"]
    self.linter.extend(st["issues"])
    if st["stopped"]:
        if st["failed"]:
            raise NotFound(message="row", query="")
    fields = st["fields"]
    if self.vghost["type"] == "bits":
        fields = list(reversed(fields))
    validate_fields(self, fields)
    yield {**self.entity_meta, "type": self.vghost["type"], "fields": fields}
    return st["at"]
