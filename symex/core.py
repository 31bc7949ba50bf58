"""Symbolic execution core: finite-domain variables, path conditions, forking.

A run of a harness under the engine follows ONE path.  Every time the code
under test needs the truth value of a symbolic condition (or the concrete value
of a symbolic integer) the engine consults the decision prefix it was started
with; past the prefix it takes the first feasible alternative and records the
other feasible ones, which the explorer runs later.  Feasibility is decided by
bit-mask domains when the condition only constrains single variables that take
part in no relational constraint (exact), otherwise by z3.  The final verdict
on every assertion is a z3 query over the path condition.
"""
import time
import z3


class Control(BaseException):
    """Engine control flow; BaseException so code under test cannot catch it."""


class Prune(Control):
    """Path is infeasible (an assumption does not hold)."""


class PathEnd(Control):
    """Stop this path here (its verdict is already recorded)."""


class Unsupported(Control):
    """Something the encoding cannot express."""


class BudgetExceeded(Control):
    """Too many decisions on one path."""


class EngineError(Control):
    """Internal inconsistency (e.g. nondeterministic re-execution)."""


# ---------------------------------------------------------------- alphabet
EXTRA = [
    "\x85", "\xa0", "\xb2", "\xc9", "\xdf", "\xe9",
    "\u0131", "\u017f", "\u0661", "\u20ac", "\u2028", "\u2160",
    "\u212a", "\ufeff", "\uff11", "\uff21", "\U0001f600",
]
ALPHA = [chr(i) for i in range(128)] + EXTRA
ALPHA.sort()
AIDX = {c: i for i, c in enumerate(ALPHA)}
NALPHA = len(ALPHA)
FULLA = (1 << NALPHA) - 1


def mask_of(chars):
    """Bit mask (over ALPHA) of the given characters."""
    m = 0
    for c in chars:
        m |= 1 << AIDX[c]
    return m


class Tab:
    """Immutable, interned table: value of a variable (index) -> python value."""
    __slots__ = ("v", "inv", "_hash", "injective", "__weakref__")
    _pool = {}

    def __new__(cls, values):
        values = tuple(values)
        key = (values, tuple(map(type, values)) if values and not isinstance(values[0], str) else None)
        t = cls._pool.get(key)
        if t is None:
            t = object.__new__(cls)
            t.v = values
            inv = {}
            for i, x in enumerate(values):
                inv[x] = inv.get(x, 0) | (1 << i)
            t.inv = inv
            t.injective = len(inv) == len(values)
            t._hash = hash(values)
            cls._pool[key] = t
        return t

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def map(self, fn):
        return Tab(fn(x) for x in self.v)


ALPHATAB = Tab(ALPHA)


class Var:
    """Finite-domain symbolic variable."""
    __slots__ = ("id", "name", "n", "z", "kind", "tab", "aux")

    def __init__(self, id, name, n, kind, tab):
        self.id, self.name, self.n, self.kind, self.tab = id, name, n, kind, tab
        self.z = z3.Int("v%d" % id)
        self.aux = None


_maskcache = {}


def bits(mask):
    i = 0
    while mask:
        low = mask & -mask
        i = low.bit_length() - 1
        yield i
        mask ^= low


def mask_expr(zv, mask, n):
    """z3 expression: index variable zv is in mask (domain 0..n-1)."""
    key = (zv.get_id(), mask)
    e = _maskcache.get(key)
    if e is not None:
        return e[1]
    parts = []
    i = 0
    while i < n:
        if mask >> i & 1:
            j = i
            while j + 1 < n and mask >> (j + 1) & 1:
                j += 1
            if i == j:
                parts.append(zv == i)
            elif i == 0 and j == n - 1:
                parts.append(z3.And(zv >= 0, zv <= n - 1))
            else:
                parts.append(z3.And(zv >= i, zv <= j))
            i = j + 1
        else:
            i += 1
    e = z3.Or(parts) if len(parts) != 1 else parts[0]
    if not parts:
        e = z3.BoolVal(False)
    if len(_maskcache) > 200000:
        _maskcache.clear()
    _maskcache[key] = (zv, e)
    return e


class SymBool:
    """A symbolic condition.  masks: dict var->mask (conjunction), or a z3 expr."""
    __slots__ = ("masks", "expr", "vars", "neg")

    def __init__(self, masks=None, expr=None, vars=None, neg=False):
        self.masks, self.expr, self.neg = masks, expr, neg
        self.vars = set(masks) if masks is not None else (vars or set())

    def __bool__(self):
        return E.branch(self)

    def z(self):
        if self.masks is not None:
            e = z3.And([mask_expr(v.z, m, v.n) for v, m in self.masks.items()])
        else:
            e = self.expr
        return z3.Not(e) if self.neg else e

    def negate(self):
        if self.masks is not None and not self.neg and len(self.masks) == 1:
            (v, m), = self.masks.items()
            return SymBool(masks={v: ((1 << v.n) - 1) & ~m})
        return SymBool(masks=self.masks, expr=self.expr, vars=self.vars, neg=not self.neg)

    def __eq__(self, o):
        if o is True:
            return self
        if o is False:
            return self.negate()
        if isinstance(o, SymBool):
            return bool(self) == bool(o)
        if isinstance(o, int):
            return bool(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else r.negate()

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return bool(self) & o

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ o

    def __invert__(self):
        return self.negate()

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return "<SymBool>"


def s_not(c):
    """Logical negation as a condition value."""
    if isinstance(c, SymBool):
        return c.negate()
    return not c


def s_and(*cs):
    """Conjunction of bools/SymBools without forking."""
    masks, exprs, vs = {}, [], set()
    for c in cs:
        if not isinstance(c, SymBool):
            if not c:
                return False
            continue
        if c.masks is not None and not c.neg:
            for v, m in c.masks.items():
                masks[v] = masks.get(v, -1) & m
        else:
            exprs.append(c.z())
            vs |= c.vars
    if not exprs:
        return SymBool(masks=masks) if masks else True
    for v, m in masks.items():
        exprs.append(mask_expr(v.z, m & ((1 << v.n) - 1), v.n))
        vs.add(v)
    return SymBool(expr=z3.And(exprs), vars=vs)


def s_or(*cs):
    """Disjunction of bools/SymBools without forking."""
    exprs, vs = [], set()
    onevar, allm = None, 0
    single = True
    for c in cs:
        if not isinstance(c, SymBool):
            if c:
                return True
            continue
        if single and c.masks is not None and not c.neg and len(c.masks) == 1:
            (v, m), = c.masks.items()
            if onevar is None or onevar is v:
                onevar, allm = v, allm | m
            else:
                single = False
        else:
            single = False
        exprs.append(c)
        vs |= c.vars
    if not exprs:
        return False
    if single:
        return SymBool(masks={onevar: allm})
    return SymBool(expr=z3.Or([c.z() for c in exprs]), vars=vs)


class Stats:
    FIELDS = ("paths", "decisions", "queries", "sat", "unsat", "unknown", "solver_s",
              "asserts", "asserts_folded", "asserts_solver", "pruned", "unsupported",
              "budget", "concretised_capped", "exec_s")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])


class Engine:
    """The symbolic engine (a process-wide singleton, E)."""

    def __init__(self):
        self.stats = Stats()
        self.active = False
        self.int_cap = 2000
        self.concretise_cap = 160
        self.max_decisions = 4000
        self.solver_timeout_ms = 60000
        self.notes = {}          # note -> count (approximations)
        self.cov = set()
        self.seed = 0
        self.start(())

    # -------------------------------------------------- path life cycle
    def start(self, prefix):
        self.prefix = list(prefix)
        self.trail = []
        self.alts = []
        self.vars = []
        self.dom = {}
        self.entangled = set()
        self.pcs = []
        self._solver = None
        self._asserted = 0
        self._asserted_dom = {}
        self.path_approx = []
        self.counter = 0
        self.ndec = 0

    def note(self, what):
        self.notes[what] = self.notes.get(what, 0) + 1

    def approx(self, what):
        self.path_approx.append(what)
        self.note(what)

    def new_var(self, name, n, kind="char", tab=None, mask=None):
        v = Var(len(self.vars), name, n, kind, tab)
        self.vars.append(v)
        self.dom[v] = ((1 << n) - 1) if mask is None else mask
        return v

    # -------------------------------------------------- solver
    def _sync(self):
        if self._solver is None:
            self._solver = z3.SolverFor("QF_LIA")
            self._solver.set("timeout", self.solver_timeout_ms)
            self._asserted = 0
            self._asserted_dom = {}
        s = self._solver
        for e in self.pcs[self._asserted:]:
            s.add(e)
        self._asserted = len(self.pcs)
        for v in self.vars:
            m = self.dom[v]
            if self._asserted_dom.get(v) != m:
                s.add(mask_expr(v.z, m, v.n))
                self._asserted_dom[v] = m
        return s

    def solve(self, extra=None):
        """z3 verdict on (path condition and extra): returns 'sat'/'unsat'/'unknown'."""
        t = time.perf_counter()
        s = self._sync()
        if extra is None:
            r = s.check()
            self._lastmodel = s.model() if r == z3.sat else None
        else:
            s.push()
            s.add(extra)
            r = s.check()
            self._lastmodel = s.model() if r == z3.sat else None
            s.pop()
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        r = str(r)
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        return r

    def model_values(self):
        """Concrete index for each variable from the last sat model."""
        m = self._lastmodel
        out = []
        for v in self.vars:
            x = m.eval(v.z, model_completion=True).as_long()
            if not (0 <= x < v.n) or not (self.dom[v] >> x & 1):
                x = next(bits(self.dom[v]))
            out.append(x)
        return out

    # -------------------------------------------------- forking
    def _decide(self, feasible):
        """Take a decision among feasible entries, honouring the prefix."""
        self.ndec += 1
        if self.ndec > self.max_decisions:
            raise BudgetExceeded("more than %d decisions on a path" % self.max_decisions)
        self.stats.decisions += 1
        pos = len(self.trail)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trail.append(d)
            return d
        opts = feasible()
        if not opts:
            raise Prune("no feasible alternative")
        d = opts[0]
        for o in opts[1:]:
            self.alts.append(tuple(self.trail) + (o,))
        self.trail.append(d)
        return d

    def _simplify(self, cond):
        """Returns True/False or a (possibly reduced) SymBool under current domains."""
        if cond.masks is not None:
            red = {}
            for v, m in cond.masks.items():
                d = self.dom[v]
                x = d & m
                if x == 0:
                    return False if not cond.neg else True
                if x != d:
                    red[v] = x
            if not red:
                return True if not cond.neg else False
            if cond.neg and len(red) == 1:
                (v, m), = red.items()
                return SymBool(masks={v: self.dom[v] & ~m})
            return SymBool(masks=red, neg=cond.neg)
        e = z3.simplify(cond.z())
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SymBool(expr=e, vars=cond.vars)

    def add(self, cond):
        """Add a condition (already known feasible) to the path."""
        if cond.masks is not None and not cond.neg:
            for v, m in cond.masks.items():
                self.dom[v] &= m
        else:
            self.pcs.append(cond.z())
            self.entangled |= cond.vars

    def branch(self, cond):
        if not isinstance(cond, SymBool):
            return bool(cond)
        c = self._simplify(cond)
        if c is True or c is False:
            return c

        def feasible():
            if c.masks is not None and not (c.vars & self.entangled):
                return [1, 0]
            opts = []
            r1 = self.solve(c.z())
            if r1 != "unsat":
                opts.append(1)
                r0 = self.solve(c.negate().z())
                if r0 != "unsat":
                    opts.append(0)
            else:
                opts.append(0)
            return opts
        d = self._decide(feasible)
        if d == 1:
            self.add(c)
            return True
        if d == 0:
            self.add(c.negate())
            return False
        raise EngineError("prefix mismatch: branch got %r" % (d,))

    def assume(self, cond):
        if not isinstance(cond, SymBool):
            if not cond:
                raise Prune("assumption false")
            return
        c = self._simplify(cond)
        if c is True:
            return
        if c is False:
            raise Prune("assumption false")
        if not (c.masks is not None and not (c.vars & self.entangled)):
            if len(self.trail) >= len(self.prefix) and self.solve(c.z()) == "unsat":
                raise Prune("assumption infeasible")
        self.add(c)

    def pick_index(self, var):
        """n-way fork on the value of a variable; returns the index."""
        d = self.dom[var]
        if d & (d - 1) == 0:
            return d.bit_length() - 1

        def feasible():
            opts = list(bits(d))
            if var in self.entangled:
                opts = [i for i in opts if self.solve(var.z == i) != "unsat"]
            if len(opts) > self.concretise_cap and var.kind != "choice":
                keep = set()
                step = max(1, len(opts) // self.concretise_cap)
                keep.update(opts[::step][:self.concretise_cap])
                self.stats.concretised_capped += 1
                self.approx("concretisation of %s capped at %d of %d values" % (var.kind, len(keep), len(opts)))
                opts = [i for i in opts if i in keep]
            return opts
        i = self._decide(feasible)
        self.dom[var] = 1 << i
        return i

    def pick_int(self, expr, vars):
        """Concretise a z3 Int expression by forking over its feasible values."""
        n = 0
        while True:
            n += 1

            def feasible():
                r = self.solve()
                if r != "sat":
                    raise Prune("unsat path at concretisation")
                val = self._lastmodel.eval(expr, model_completion=True).as_long()
                opts = [(val, 1)]
                if n <= self.int_cap:
                    if self.solve(expr != val) != "unsat":
                        opts.append((val, 0))
                else:
                    self.approx("concretisation of an integer capped at %d values" % self.int_cap)
                return opts
            d = self._decide(feasible)
            if not isinstance(d, tuple):
                raise EngineError("prefix mismatch: pick_int got %r" % (d,))
            val, taken = d
            self.entangled |= vars
            if taken:
                self.pcs.append(expr == val)
                return val
            self.pcs.append(expr != val)


E = Engine()
