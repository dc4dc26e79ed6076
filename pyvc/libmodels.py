"""Trusted models of library functions and of lxml (the assumed contracts)."""
from __future__ import annotations

import io
import types
from typing import Any, Dict

import z3

from .core import *  # noqa
from . import interp as ip
from .interp import BLACKHOLE, Bound, Model

MODELS: Dict[str, Any] = {}
CTORS: Dict[str, Any] = {}
OPQ_ATTR: Dict[Any, Any] = {}
OPQ_ITER: Dict[str, Any] = {}
OPQ_TRUTH: Dict[str, Any] = {}
OPQ_CLASS: Dict[str, Any] = {}
OPQ_BUILT: Any = set()  # (tag, class): objects which stand for such a value
OPQ_KIND: Dict[str, Any] = {}
OBJ_ATTR: Dict[Any, Any] = {}
PATTERN_NAMES: Dict[Any, str] = {}

_bh_types = ()


def is_blackhole(o):
    global _bh_types
    if not _bh_types:
        from loguru import logger

        _bh_types = (type(logger),)
    if isinstance(o, _bh_types):
        return True
    if isinstance(o, io.TextIOBase):  # sys.stdout, sys.stderr: what is printed is not observed
        return True
    if isinstance(o, types.ModuleType) and o.__name__ in ("traceback",):
        return True
    if isinstance(o, types.FunctionType) and o.__module__ == "traceback":
        return True
    if isinstance(o, type) and o.__name__ == "ULog":
        return True
    return False


def _elem_class():
    from lxml.etree import _Element

    return _Element


OPQ_CLASS["elem"] = _elem_class()


def _tostring(I, e, **k):
    return I.ctx.mkstr(ufn("etree.tostring", ObjS, StrS)(I.resolve(e).t))


def register_late():
    from lxml import etree

    from . import models

    models.BUILTINS[etree.tostring] = _tostring
    models.BUILTINS[etree.iselement] = lambda I, e: isinstance(I.resolve(e), SOpq)


register_late()
