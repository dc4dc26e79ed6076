"""Specification of value tables."""
from .base import *  # noqa
from .xmlspec import NotFound, LabelError, txt, xp
from .structs import (
    ENTITY, ISSUE, VALUE_FIELD, Collect, brief_of, invalid_label, issue, normalize, rows_of, sub_entities,
)

VAL = T.union(T.str, T.int)


@opaque(T.str)
def rearrange(label):
    m = LEADING_NUM.match(label)
    if m is None:
        return label
    return (m.group(2).strip("_") + "_" + m.group(1)).strip("_")


@opaque(T.opt(T.str))
def first_paragraph(cell):
    ps = xp(cell, "./p[1]")
    if len(ps) == 0:
        return None
    return txt(ps[0])


@opaque(T.Tuple((T.str, T.opt(T.str))))
def content_label(text):
    """label text and lint code of a definition cell"""
    m = VALUE_LABEL.match(text)
    if m is None:
        return (text, "L1000")
    w = m.group("label")
    if w is not None and w != "":
        return (w, None)
    return (text, "L1000")


@opaque(T.Tuple((T.str, T.opt(T.str))))
def attribute_label(text):
    """label text and lint code of a dedicated attribute cell"""
    t = text.lower()
    if t == "reserved":
        return (RESERVED, None)
    parts = t.split(":", 1)
    return (parts[0].replace(" ", "_").upper(), "L1003" if len(parts) == 1 else None)


def finish_label(col, text, row_key):
    lbl = normalize(rearrange(text))
    if invalid_label(lbl):
        issue(col, "L1004", row_key, {"label": lbl})
    return lbl


def check_init(fig_id):
    return {"labels": set(), "values": set(), "issues": []}


def check_step(fig_id, st, f):
    if f["label"] in {RESERVED, ELLIPSIS}:
        return st
    if f["label"] in st["labels"]:
        st["issues"].append(("L1002", fig_id, str(f["val"]), {"label": f["label"]}))
    st["labels"].add(f["label"])
    if f["val"] in st["values"]:
        st["issues"].append(("V1002", fig_id, str(f["val"]), dict()))
    st["values"].add(f["val"])
    return st


CHECK = Fold("value_checks", {"labels": T.Set(), "values": T.Set(), "issues": T.List(ISSUE)}, check_init, check_step)


def validate_fields(self, fields):
    if len(fields) < 2:
        return None
    self.linter.extend(fold(CHECK, fields, self.fig_id)["issues"])
    return None


def value_init(self):
    return {"fields": [], "issues": [], "nested": [], "failed": 0}


def overridden(self, val):
    """label the document's specialisation imposes on this row, or None"""
    return self.voverrides((self.fig_id, val))


def value_step(self, st, row):
    fields = st["fields"]
    v, l, c = self.vghost["cols"]
    if len(xp(row, "./th")) > 0:
        return st
    vs = xp(row, "./td[" + str(v + 1) + "]")
    cs = xp(row, "./td[" + str(c + 1) + "]") if len(vs) > 0 else []
    if len(vs) == 0 or len(cs) == 0:
        t = txt(row).lower()
        if t.startswith(ELLIPSIS):
            fields.append({"val": ELLIPSIS, "label": ELLIPSIS})
            return st
        if t.startswith("notes:"):
            st["failed"] = 0
            return ("STOP", st)
        if len(xp(row, "./td")) == 1:
            return st
        st["failed"] = 1
        return ("STOP", st)
    val = txt(vs[0]).lower()
    if val == ELLIPSIS:
        fields.append({"val": ELLIPSIS, "label": ELLIPSIS})
        return st
    cell = cs[0]
    col = Collect(self, st["issues"])
    label = overridden(self, val)
    if label is not None:
        issue(col, "L1007", val)
    elif self.vghost["same"]:
        text = first_paragraph(cell)
        if text is None:
            issue(col, "L1000", val)
            st["failed"] = 2
            return ("STOP", st)
        if text.upper() == RESERVED:
            label = RESERVED
        else:
            lt, code = content_label(text)
            if code is not None:
                issue(col, code, val)
            label = finish_label(col, lt, val)
    else:
        ps = xp(row, "./td[" + str(l + 1) + "]/p[1]")
        if len(ps) == 0:
            st["failed"] = 1
            return ("STOP", st)
        lt, code = attribute_label(txt(ps[0]))
        if code is not None:
            issue(col, code, val)
        if lt.upper() == RESERVED:
            label = RESERVED
        else:
            label = finish_label(col, lt, val)
    brief = brief_of(txt(cell), 60)
    st["nested"].extend(sub_entities(self, self.fig_id + "_" + val, self.fig_id, cell))
    if self.vghost["broken"]:
        st["failed"] = 1
        return ("STOP", st)
    if brief is not None:
        fields.append({"val": val, "label": label, "brief": brief})
    else:
        fields.append({"val": val, "label": label})
    return st


VALUES = Fold("value_rows", {
    "fields": T.List(VALUE_FIELD), "issues": T.List(ISSUE), "nested": T.List(ENTITY), "failed": T.int}, value_init, value_step)


def value_table(self):
    st = fold(VALUES, rows_of(self.tbl), self)
    yield from st["nested"]
    self.linter.extend(st["issues"])
    if st["stopped"]:
        if st["failed"] == 1:
            raise NotFound(message="row", query="")
        if st["failed"] == 2:
            raise LabelError("label")
    fields = st["fields"]
    validate_fields(self, fields)
    yield {**self.entity_meta, "fields": fields, "type": "values"}
