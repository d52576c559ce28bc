"""Path explorer: DFS over branch decisions by re-execution."""
import sys
import time
import traceback
from fractions import Fraction
from . import expr as E
from . import solver as Z


class PathControl(BaseException):
    """base of steering exceptions (never caught by `except Exception`)"""


class Infeasible(PathControl):
    pass


class NonFinite(PathControl):
    """a tensor computation produced inf/nan on this path (division by zero,
    sqrt of a negative number, ...)"""


class Unsupported(PathControl):
    """the code under test used something the encoding does not model"""


class BudgetExceeded(PathControl):
    pass


class Violation:
    def __init__(self, msg, model, kind="assert"):
        self.msg = msg
        self.model = model
        self.kind = kind


class Inconclusive(Exception):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside an exploration")
    return CTX


class Ctx:
    """state of one path execution"""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = list(explorer.base)       # path constraints (nodes)
        self.pcset = {c.id for c in self.pc}
        self.inputs = {}                    # name -> node / concrete
        self.choices = {}
        self.asserts = 0
        self.reached = 0
        self.notes = []
        self.algebra = False                # exact roots of squares of inputs
        self.defs = set()
        self.nan = False                    # 0/0 continues as NaN

    # ---------------------------------------------------------------- decisions
    def assume(self, node):
        if node is E.TRUE or node.id in self.pcset:
            return
        if node is E.FALSE:
            raise Infeasible()
        self.pcset.add(node.id)
        self.pc.append(node)

    def define(self, node):
        """a fact that holds by construction for every input"""
        self.assume(node)
        self.defs.add(node.id)

    def tests(self):
        """path condition without definitions, to try concrete points"""
        return [c for c in self.pc if c.id not in self.defs]

    def feasible(self, extra):
        if extra is E.FALSE:
            return False
        if extra.id in self.pcset:
            return True
        ne = E.not_(extra)
        if ne.id in self.pcset:
            return False
        vs = Z_vars(extra)
        cons = slice_cached(self.pc, vs)
        r, _ = Z.check(cons + [extra], timeout=self.ex.branch_timeout, kind="feasibility")
        return r != "unsat"

    def branch(self, node):
        """decide a boolean node; returns python bool"""
        if node is E.TRUE:
            return True
        if node is E.FALSE:
            return False
        if node.id in self.pcset:
            return True
        nn = E.not_(node)
        if nn.id in self.pcset:
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            self.ex.tick()
            ft = self.feasible(node)
            if not ft:
                # must be false
                d = ("f", False)
            else:
                ff = self.feasible(nn)
                if not ff:
                    d = ("f", True)
                else:
                    d = ("b", True)
                    self.ex.push(self.trace + [("b", False)])
        self.pos += 1
        self.trace.append(d)
        self.assume(node if d[1] else nn)
        return d[1]

    def concretize(self, node):
        """fork over the feasible values of an integer node"""
        if E.is_const(node):
            return int(E.cval(node))
        # already determined?
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            self.ex.tick()
            vs = Z_vars(node)
            cons = slice_cached(self.pc, vs)
            probe = E.eq(node, E.var("__probe%d" % node.id, "I"))
            vals = []
            extra = []
            while True:
                r, m = Z.check(cons + [probe] + extra, timeout=self.ex.branch_timeout, want_model=True, kind="feasibility")
                if r == "unsat":
                    break
                if r != "sat" or m is None:
                    raise Unsupported("cannot enumerate the values of a symbolic integer")
                v = int(m["__probe%d" % node.id])
                vals.append(v)
                if len(vals) > self.ex.max_concretize:
                    raise Unsupported("too many values for a symbolic integer used as index/size")
                extra.append(E.not_(E.eq(node, E.const(v, "I"))))
            if not vals:
                raise Infeasible()
            vals.sort()
            d = ("v", vals[0])
            for v in reversed(vals[1:]):
                self.ex.push(self.trace + [("v", v)])
        self.pos += 1
        self.trace.append(d)
        self.assume(E.eq(node, E.const(d[1], "I")))
        return d[1]

    def choose(self, options):
        """explicit non-deterministic choice among concrete options"""
        n = len(options)
        if n == 1:
            return options[0]
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = ("c", 0)
            for i in reversed(range(1, n)):
                self.ex.push(self.trace + [("c", i)])
        self.pos += 1
        self.trace.append(d)
        return options[d[1]]


_varcache = {}


def Z_vars(node):
    r = _varcache.get(node.id)
    if r is None:
        r = frozenset(v.id for v in E.variables([node]))
        _varcache[node.id] = r
    return r


def slice_cached(constraints, need):
    need = set(need)
    out = []
    rest = list(constraints)
    changed = True
    while changed and rest:
        changed = False
        nrest = []
        for c in rest:
            vs = Z_vars(c)
            if vs & need:
                out.append(c)
                need |= vs
                changed = True
            else:
                nrest.append(c)
        rest = nrest
    return out


class Explorer:
    def __init__(self, max_paths=20000, time_limit=600.0, query_timeout=30.0,
                 branch_timeout=4.0, max_concretize=64):
        self.base = []
        self.stack = []
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.query_timeout = query_timeout
        self.branch_timeout = branch_timeout
        self.max_concretize = max_concretize
        self.t0 = time.time()
        self.paths = 0
        self.infeasible = 0
        self.reached = 0
        self.checks = 0
        self.decisions = 0

    def tick(self):
        self.decisions += 1
        if time.time() - self.t0 > self.time_limit:
            raise BudgetExceeded("exploration time limit")

    def push(self, prefix):
        self.stack.append(prefix)

    def run(self, fn, on_path):
        """fn(ctx) executes the harness once; on_path(ctx, outcome)."""
        global CTX
        self.stack = [[]]
        while self.stack:
            if self.paths >= self.max_paths:
                raise BudgetExceeded("path limit %d" % self.max_paths)
            if time.time() - self.t0 > self.time_limit:
                raise BudgetExceeded("exploration time limit")
            prefix = self.stack.pop()
            c = Ctx(self, prefix)
            CTX = c
            try:
                outcome = ("ok", fn(c))
            except Infeasible:
                self.infeasible += 1
                continue
            except NonFinite as e:
                outcome = ("nonfinite", e)
            except Unsupported as e:
                outcome = ("unsupported", e)
            except BudgetExceeded:
                raise
            except StopPath as e:
                outcome = ("stop", e)
            except Exception as e:  # escaped exception of the code under test
                outcome = ("exception", e)
            finally:
                CTX = None
            self.paths += 1
            CTX = c
            try:
                stop = on_path(c, outcome)
            finally:
                CTX = None
            if stop:
                return


class StopPath(PathControl):
    """end this path now (after a recorded violation)"""
