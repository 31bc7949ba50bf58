"""The context a harness sees during symbolic execution (SymCtx)."""
import sys
import z3
from .core import (E, Tab, SymBool, ALPHA, ALPHATAB, AIDX, FULLA, mask_of, s_and, s_or, s_not, bits,
                   Prune, PathEnd, Unsupported, Control)
from .symstr import (SymStr, SymBytes, SymInt, Ch, ch_mk, mk, issym, concretise, deep_concretise, val_at, pieces, has_sym)
from .containers import SDict, SSet, _View
from .stubs import env
from .stubs.content import JSeq, JsonDoc, fresh, loads
from .stubs.fsmodel import Dir, File


class SimCrash(BaseException):
    """The simulated process death (not an Exception: no handler may swallow it)."""


class SymCtx:
    sym = True
    root = "/s"

    def __init__(self, world):
        self.world = world
        self.inputs = {}
        self.obs = []
        self.labels = {}
        self.violations = []
        self.known_hits = []
        self._cur_thread = None
        self.steps = 0

    # ------------------------------------------------------------ inputs
    def _rec(self, name, val):
        if name in self.inputs:
            i = 2
            while "%s#%d" % (name, i) in self.inputs:
                i += 1
            name = "%s#%d" % (name, i)
        self.inputs[name] = val
        return val

    def choice(self, name, options):
        """One of options (any values), by forking."""
        n = len(options)
        if n == 1:
            self._rec(name, 0)
            return options[0]
        v = E.new_var(name, n, "choice")
        i = E.pick_index(v)
        self._rec(name, i)
        return options[i]

    def boolean(self, name):
        return self.choice(name, (False, True))

    def str(self, name, lo, hi=None, alphabet=None):
        """Arbitrary string of length lo..hi over the alphabet (default: the engine's 145 characters)."""
        hi = lo if hi is None else hi
        n = self.choice(name + ".len", range(lo, hi + 1)) if hi > lo else lo
        mask = FULLA if alphabet is None else mask_of(alphabet)
        ps = []
        for i in range(n):
            v = E.new_var("%s[%d]" % (name, i), len(ALPHA), "char", mask=mask)
            ps.append(Ch(v, ALPHATAB) if mask & (mask - 1) else ALPHA[mask.bit_length() - 1])
        return self._rec(name, mk(ps))

    def sel(self, name, options):
        """One of several strings (or bytes) held symbolically: forks on length only."""
        isb = isinstance(options[0], bytes)
        opts = [o.decode("latin-1") if isb else o for o in options]
        lens = sorted(set(map(len, opts)))
        n = self.choice(name + ".len", lens) if len(lens) > 1 else lens[0]
        opts = [o for o in opts if len(o) == n]
        if len(opts) == 1 or n == 0:
            return self._rec(name, opts[0].encode("latin-1") if isb else opts[0])
        v = E.new_var(name, len(opts), "sel")
        ps = [ch_mk(v, Tab([o[j] for o in opts])) for j in range(n)]
        return self._rec(name, mk(ps, SymBytes if isb else SymStr))

    def int(self, name, lo, hi):
        if lo == hi:
            return self._rec(name, lo)
        v = E.new_var(name, hi - lo + 1, "int")
        return self._rec(name, SymInt(tab=(v, Tab(range(lo, hi + 1)))))

    # ------------------------------------------------------------ assertions
    def assume(self, cond):
        E.assume(cond)

    def reach(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def check(self, cond, label, known=(), **info):
        """Assert cond on this path; z3 decides whether any input of the path breaks it."""
        E.stats.asserts += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not isinstance(cond, SymBool):
            cond = bool(cond)
        if cond is True:
            E.stats.asserts_folded += 1
            return True
        neg = s_not(cond)
        negz = neg.z() if isinstance(neg, SymBool) else None
        if len(E.trail) >= len(E.prefix):       # verdict not yet given on a previous run of this prefix
            E.stats.asserts_solver += 1
            ks = []
            for kid, kc in known:
                if not isinstance(kc, SymBool):
                    if not kc:
                        continue
                    kz = z3.BoolVal(True)
                else:
                    kz = kc.z()
                ks.append(kz)
                q = kz if negz is None else z3.And(negz, kz)
                if E.solve(q) == "sat":
                    self.known_hits.append((kid, label, self.model_inputs(E.model_values())))
            parts = ([negz] if negz is not None else []) + [z3.Not(k) for k in ks]
            r = E.solve(z3.And(parts) if parts else None)
            if r == "sat":
                self.violations.append((label, self.model_inputs(E.model_values())))
            elif r == "unknown":
                E.note("solver answered unknown on assertion %s" % label)
        if cond is False:
            raise PathEnd("assertion false: " + label)
        E.assume(cond)
        return True

    def fail(self, label, known=(), **info):
        self.check(False, label, known=known, **info)

    def model_inputs(self, values):
        return {k: val_at(v, values) for k, v in self.inputs.items()}

    def observe(self, name, value):
        self.obs.append((name, value))

    def eq(self, a, b):
        """Equality as a condition, without forking where possible."""
        return a == b

    def all(self, conds):
        return s_and(*conds)

    def any(self, conds):
        return s_or(*conds)

    def no(self, cond):
        return s_not(cond)

    def concrete(self, x):
        return deep_concretise(x)

    # ------------------------------------------------------------ file system
    def path(self, *rel):
        p = self.root
        for r in rel:
            p = p + "/" + r
        return p

    def _fs(self):
        return env.current().fs

    def put(self, rel, data):
        if isinstance(data, (str, SymStr)):
            data = data.encode("utf-8")
        self._fs().put(self.root + "/" + rel, data)

    def mkdir(self, rel):
        self._fs().putdir(self.root + "/" + rel)

    def putjson(self, rel, obj):
        from .stubs.content import dumps
        self._fs().put(self.root + "/" + rel, dumps(obj, indent=2).encode())

    def remove(self, rel):
        fs = self._fs()
        fs.delete(self.root + "/" + rel)

    def rename(self, a, b):
        fs = self._fs()
        n = fs.node(self.root + "/" + a)
        fs.delete(self.root + "/" + a)
        if isinstance(n, Dir):
            fs.putdir(self.root + "/" + b)
            fs.lookup(self.root + "/" + b).kids = n.kids
        else:
            fs.put(self.root + "/" + b, n.data)

    def exists(self, rel):
        return self._fs().exists(self.root + "/" + rel)

    def isdir(self, rel):
        return self._fs().isdir(self.root + "/" + rel)

    def isfile(self, rel):
        return self._fs().isfile(self.root + "/" + rel)

    def listdir(self, rel):
        return list(self._fs().names(self.root + "/" + rel if rel else self.root))

    def read(self, rel):
        n = self._fs().node(self.root + "/" + rel)
        return n.data

    def readjson(self, rel):
        return loads(self.read(rel))

    def files(self, rel=""):
        """SDict relative file path -> content, everything below rel."""
        d = SDict()
        for p, n in self._fs().tree(self.root + ("/" + rel if rel else "")):
            if isinstance(n, File):
                d[p] = n.data
        return d

    def dirs(self, rel=""):
        return [p for p, n in self._fs().tree(self.root + ("/" + rel if rel else "")) if isinstance(n, Dir)]

    def snapshot(self, rel=""):
        """Opaque copy of the tree below rel, comparable with ==."""
        d = SDict()
        for p, n in self._fs().tree(self.root + ("/" + rel if rel else "")):
            d[p] = n.data if isinstance(n, File) else None
        return d

    def snapshot_outside(self):
        """Everything outside the scratch root (must never change)."""
        d = SDict()
        for p, n in self._fs().tree("/"):
            if bool(p == "s") or bool(p.startswith("s/")) or bool(p == "tmp") or bool(p.startswith("tmp/")):
                continue
            d[p] = n.data if isinstance(n, File) else None
        return d

    def cwd(self, rel=""):
        self._fs().cwd = self.root + ("/" + rel if rel else "")

    def listing_order(self, reverse):
        self._fs().reverse = reverse

    # ------------------------------------------------------------ faults
    def run_with_fault(self, fn, kind, maxstep=200):
        """Run fn with a process crash ("crash") or an I/O error ("eio") at a symbolic step.

        Returns "done" (no fault happened), "crashed", or ("exc", exception)."""
        fs = self._fs()
        name = "fault.step"
        state = {"n": 0, "hit": None}
        from .core import Var
        v = E.new_var(name, maxstep + 1, "choice")
        self._rec(name, SymInt(tab=(v, Tab(range(maxstep + 1)))))

        def hook(k, path):
            if state["hit"] is not None:
                return
            i = state["n"]
            if i >= maxstep:
                raise Unsupported("more than %d file-system steps" % maxstep)
            state["n"] = i + 1
            if E.branch(SymBool(masks={v: 1 << i})):
                state["hit"] = (k, path)
                if kind == "crash":
                    fs.dead = True
                    raise SimCrash()
                raise OSError(28, "No space left on device", path)
        fs.hook = hook
        try:
            fn()
            r = "done"
            if state["hit"] is None:
                E.assume(SymBool(masks={v: 1 << maxstep}))
        except SimCrash:
            r = "crashed"
        except Exception as e:  # noqa
            if state["hit"] is None:
                raise
            r = ("exc", e)
        finally:
            fs.hook = None
            fs.dead = False
        self.fault_hit = state["hit"] is not None
        self.steps = state["n"]
        return r

    # ------------------------------------------------------------ scripts and output
    def run_script(self, fname, argv):
        """Run a script; returns (exit status, printed text)."""
        e = env.current()
        n = len(e.stdout)
        st = self.world.run_script(fname, argv)
        self.script_exc = self.world.script_exc
        out = SymStr(()) if 0 else ""
        for x in e.stdout[n:]:
            out = out + x
        return st, out

    def stdout_mark(self):
        return len(env.current().stdout)

    def stdout_since(self, mark):
        out = ""
        for x in env.current().stdout[mark:]:
            out = out + x
        return out

    def native(self, fn, *args):
        """Apply a pure reference function natively (tabulated or concretised)."""
        from .runtime import lift
        if any(issym(a) or has_sym(a) for a in args):
            return lift(fn, args, {})
        return fn(*args)
