"""Vocabulary of the specifications: plain Python, independent of /repo."""
import re

from pyvc.core import T
from pyvc.mark import opaque, prim

RESERVED = "RESERVED"
OBSOLETE = "OBSOLETE"
ELLIPSIS = "…"

# reference patterns ------------------------------------------------------
RANGE = re.compile(r"(?P<high>\d+)\s*(:\s*(?P<low>\d+))?")
DYNRANGE = re.compile(
    r"^(?P<low>[a-zA-Z0-9+\-*()\s]+):(?P<high>[a-zA-Z0-9+\-*()\s]+)"
)
STRUCT_LABEL = re.compile(
    r"^(?P<label>[\w\s,-/&]*)\(?(?P<acronym>[\w\s\d]*)?\)?:?(?P<brief>.+)?$", re.DOTALL
)
VALUE_LABEL = re.compile(r"^(?P<label>[\w\s/-]*):?(?P<brief>.+)?$", re.DOTALL)
IDENT = re.compile(r"^[a-zA-Z][\w]*$")
ELLIPSIS_LABEL = re.compile(r"^[\s]*[\.\.\.]|[…][\s]*$")
LEADING_NUM = re.compile(r"^(\d+)(.*)")
FIG_ID = re.compile(r"Figure\s+(?P<figid>[^\s^:]+).*")


class TraceLinter:
    """records the lint issues of interest, in order, as plain tuples."""

    def __init__(self, focus=None):
        self.focus = focus
        self.trace = []

    def add_issue(self, err, fig, *, msg=None, row_key=None, ctx=None):
        self.issue(err.value.name, fig, row_key, ctx)

    def issue(self, code, fig, row_key=None, ctx=None):
        if self.focus is None or code in self.focus:
            self.trace.append((code, fig, row_key, dict() if ctx is None else ctx))

    def lint_entries(self):
        return self.trace

    def extend(self, issues):
        self.trace.extend(issues)


class Fold:
    """a recursive definition over a sequence: state_0 = init(*env),
    state_{i+1} = step(*env, state_i, x_i); a step may return
    ("STOP", state), after which the state no longer changes.
    keys: for components which are maps, what holds of every key after i elements
    (I, env, i, key) -> condition; proved by induction where the loop is."""

    def __init__(self, name, shape, init, step, env=(), indexed=False, keys=()):
        self.indexed = indexed
        self.keys = dict(keys)
        self.name, self.shape, self.init, self.step = name, shape, init, step
        self.env = tuple(env)

    def at(self, *env):
        return Fold(self.name, self.shape, self.init, self.step, env, self.indexed, self.keys)


def _sym_fold(I, F, lst, *env):
    if env:
        F = Fold(F.name, F.shape, F.init, F.step, env, F.indexed, F.keys)
    return I.fold_value(F, lst)


@prim(_sym_fold)
def fold(F, lst, *env):
    st = F.init(*env)
    for i, x in enumerate(lst):
        r = F.step(*env, st, i, x) if F.indexed else F.step(*env, st, x)
        if isinstance(r, tuple):
            return {**r[1], "stopped": True}
        st = r
    return {**st, "stopped": False}


class Loop(Fold):
    """the same for a loop which runs as long as cond(*env, state) holds:
    step(*env, state) is the next state."""

    def __init__(self, name, shape, init, cond, step, env=()):
        super().__init__(name, shape, init, step, env)
        self.cond = cond

    def at(self, *env):
        return Loop(self.name, self.shape, self.init, self.cond, self.step, env)


@prim(lambda I, F, *env: I.loop_value(F.at(*env)))
def loop(F, *env):
    st = F.init(*env)
    while F.cond(*env, st):
        r = F.step(*env, st)
        if isinstance(r, tuple):
            return {**r[1], "stopped": True}
        st = r
    return {**st, "stopped": False}
