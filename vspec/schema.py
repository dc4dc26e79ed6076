"""The published schema (read from /repo) and what conforming means (C14)."""
import importlib.resources
import json

from pyvc.core import T
from pyvc.mark import prim
from . import structs

ISSUE = T.rec(opt=("row",), code=T.str, msg=T.str, fig=T.str, context=T.Map(T.Opq("json")), row=T.str)


def written(entity, issue):
    """what parse_spec writes, given the forms of entities and issues"""
    return T.rec(entities=T.List(entity), meta=T.Rec(tuple((k, s, False) for k, s in (
        ("specification", T.str), ("revision", T.str), ("format version", T.Const(1)), ("spex version", T.str), ("lint", T.List(issue))))))


MODEL = written(structs.ENTITY, ISSUE)


def load():
    return json.loads(importlib.resources.files("spex.resources").joinpath("stage2.schema.json").read_text(encoding="utf-8"))


@prim(lambda I: I.lift(load()))
def schema():
    return load()


KEYWORDS = {"$schema", "title", "description", "type", "properties", "required", "enum", "minimum", "maximum", "items", "anyOf"}


def is_type(t, v):
    if t == "object":
        return isinstance(v, dict)
    if t == "array":
        return isinstance(v, list)
    if t == "string":
        return isinstance(v, str)
    if t == "boolean":
        return isinstance(v, bool)
    if t == "null":
        return v is None
    if t == "integer":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "number":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    raise ValueError("type")


def accepts(s, v):
    """JSON schema 2020-12, as far as the published schema uses it"""
    for k in s:
        if k not in KEYWORDS:
            raise ValueError("keyword " + k)
    if "type" in s and not is_type(s["type"], v):
        return False
    if "enum" in s and v not in s["enum"]:
        return False
    if isinstance(v, int) and not isinstance(v, bool):
        if "minimum" in s and v < s["minimum"]:
            return False
        if "maximum" in s and v > s["maximum"]:
            return False
    if isinstance(v, dict):
        for k in s.get("required", []):
            if k not in v:
                return False
        props = s.get("properties", {})
        for k in props:
            if k in v and not accepts(props[k], v[k]):
                return False
    if isinstance(v, list) and "items" in s:
        for x in v:
            if not accepts(s["items"], x):
                return False
    if "anyOf" in s:
        for a in s["anyOf"]:
            if accepts(a, v):
                return True
        return False
    return True


def model_accepted(m):
    return accepts(schema(), m)


# what is wrong is rejected: the schema against the statement of the property, part by part
VALUE = T.union(T.none, T.bool, T.int, T.str, T.List(T.none), T.rec())


def maybe(*keys, **known):
    return T.Rec(tuple((k, known.get(k.replace(" ", "_"), VALUE), True) for k in keys))


ANYTHING = {
    "model": T.union(VALUE, maybe("meta", "entities")),
    "meta": T.union(VALUE, maybe("specification", "revision", "format version", "spex version", "lint")),
    "issue": T.union(VALUE, maybe("code", "msg", "fig", "context", "row")),
    "entity": T.union(VALUE, maybe("title", "fig_id", "type", "fields")),
    "value_field": T.union(VALUE, maybe("val", "label", "brief")),
    "struct_field": T.union(VALUE, maybe("range", "label", "brief", range=T.union(VALUE, maybe("low", "high")))),
}


def has(v, k, t):
    return k in v and isinstance(v[k], t)


def may(v, k, t):
    return k not in v or isinstance(v[k], t)


def rejects_model(v):
    if not accepts(schema(), v):
        return True
    return isinstance(v, dict) and has(v, "meta", dict) and has(v, "entities", list)


def rejects_meta(v):
    if not accepts(schema()["properties"]["meta"], v):
        return True
    return (isinstance(v, dict) and has(v, "specification", str) and has(v, "revision", str)
            and has(v, "format version", int) and not isinstance(v["format version"], bool) and v["format version"] >= 1
            and may(v, "spex version", str) and may(v, "lint", list))


def rejects_issue(v):
    if not accepts(schema()["properties"]["meta"]["properties"]["lint"]["items"], v):
        return True
    return (isinstance(v, dict) and has(v, "code", str) and has(v, "msg", str) and has(v, "fig", str)
            and has(v, "context", dict) and may(v, "row", str))


def rejects_entity(v):
    if not accepts(schema()["properties"]["entities"]["items"], v):
        return True
    return (isinstance(v, dict) and has(v, "fig_id", str) and "type" in v and v["type"] in ("bits", "bytes", "values")
            and may(v, "title", str) and may(v, "fields", list))


def entity_kinds(kind):
    """the alternatives of the schema for entities of this kind"""
    return [a for a in schema()["properties"]["entities"]["items"]["anyOf"] if accepts(a["properties"]["type"], kind)]


def rejects_value_field(v):
    for a in entity_kinds("values"):
        if accepts(a["properties"]["fields"]["items"], v) and not (
                isinstance(v, dict) and has(v, "val", str) and has(v, "label", str) and may(v, "brief", str)):
            return False
    return True


def rejects_struct_field(v):
    for a in entity_kinds("bits") + entity_kinds("bytes"):
        if accepts(a["properties"]["fields"]["items"], v) and not (
                isinstance(v, dict) and "range" in v and range_ok(v["range"]) and has(v, "label", str) and may(v, "brief", str)):
            return False
    return True


def range_ok(r):
    """a text, or bounds which are both numbers or both formulas"""
    if isinstance(r, str):
        return True
    return isinstance(r, dict) and (
        may(r, "low", int) and may(r, "high", int) and ("low" not in r or r["low"] >= 0 or (r["low"] == -1 and ("high" not in r or r["high"] == -1)))
        or may(r, "low", str) and may(r, "high", str))
