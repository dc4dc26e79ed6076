"""decorators of the specification language (no solver needed)."""
import functools
import types

OPAQUE = {}
PRIMS = {}


def fn_key(fn):
    if isinstance(fn, functools._lru_cache_wrapper):
        fn = fn.__wrapped__
    if isinstance(fn, (types.FunctionType, type)):
        return f"{fn.__module__}:{fn.__qualname__}"
    if isinstance(fn, (types.BuiltinFunctionType, types.MethodType)):
        return f"{getattr(fn, '__module__', None)}:{getattr(fn, '__qualname__', '')}"
    return None


def opaque(shape):
    """mark a (pure) spec function: an uninterpreted function for callers,
    revealed only while its own contract is verified."""

    def deco(f):
        OPAQUE[fn_key(f)] = shape
        return f

    return deco


def prim(sym):
    """a spec primitive: runs natively as written, symbolically as `sym`."""

    def deco(f):
        PRIMS[fn_key(f)] = sym
        return f

    return deco
