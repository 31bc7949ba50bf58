"""Parallel path exploration of harness jobs."""
import multiprocessing as mp
import os
import queue
import random
import signal
import sys
import time
import traceback
from .core import E, Prune, PathEnd, Unsupported, BudgetExceeded, EngineError, Control, Stats, bits
from .symstr import val_at
from .ctx import SymCtx, SimCrash
from . import replay as _rp
from .stubs import env

SLICE_S = 1.5
PATH_CPU_S = 20     # processor time after which one path counts as not terminating


class Job:
    """One harness function with concrete parameters."""

    def __init__(self, mod, fn, params=None, name=None, bounds="", weight=1):
        self.mod, self.fn, self.params = mod, fn, params or {}
        self.name = name or fn
        self.bounds = bounds
        self.weight = weight


def _norm(v):
    """Native rendering of an observed value under a model, comparable with the replay's."""
    return _rp.jenc(v)


class Worker:
    def __init__(self, world, jobs, seed, trace_rate):
        self.world, self.jobs = world, jobs
        self.rng = random.Random(seed)
        self.fns = [getattr(world.load("harness." + j.mod), j.fn) for j in jobs]
        self.js = [dict(paths=0, complete=0, ended=0, pruned=0, unsupported=0, budget=0, labels={}, cov=set(),
                        errors={}, unsup={}) for _ in jobs]
        self.viol = []
        self.nviol = {}
        self.known = {}
        self.traces = []
        self.trace_seen = {}
        self.trace_rate = trace_rate
        self.uns_samples = []
        self.nonterm = 0

    def model(self):
        if E.solve() == "sat":
            return E.model_values()
        return None

    def cand(self, ji, label, inputs, why):
        k = (ji, label)
        n = self.nviol[k] = self.nviol.get(k, 0) + 1
        if n <= 3:
            self.viol.append((ji, label, _rp.jenc(inputs), why))
            return True
        return False

    def run_path(self, ji, prefix):
        """Run one path; returns new alternatives."""
        E.start(prefix)
        self.world.restore()
        self.world.reset()
        E.cov.clear()
        ctx = SymCtx(self.world)
        st = self.js[ji]
        j = self.jobs[ji]
        t = time.perf_counter()
        ended = alts = None
        try:
            signal.setitimer(signal.ITIMER_PROF, PATH_CPU_S)
            try:
                self.fns[ji](ctx, **j.params)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            ended = "complete"
        except Prune:
            ended = "pruned"
            E.stats.pruned += 1
        except PathEnd:
            ended = "ended"
        except Unsupported as e:
            ended = "unsupported"
            E.stats.unsupported += 1
            k = str(e)[:160]
            st["unsup"][k] = st["unsup"].get(k, 0) + 1
            if len(self.uns_samples) < 40 or self.rng.random() < 0.02:
                vals = self.model()
                if vals is not None:
                    self.uns_samples.append((ji, _rp.jenc(ctx.model_inputs(vals))))
        except BudgetExceeded as e:
            ended = "budget"
            E.stats.budget += 1
            if self.nonterm < 3:
                self.nonterm += 1
                vals = self.model()
                if vals is not None:
                    self.cand(ji, "terminates", ctx.model_inputs(vals), str(e))
        except RecursionError as e:
            ended = "unsupported"
            E.stats.unsupported += 1
            st["unsup"]["recursion"] = st["unsup"].get("recursion", 0) + 1
        except EngineError as e:
            ended = "engine_error"
            st["unsup"]["engine: %s" % e] = st["unsup"].get("engine: %s" % e, 0) + 1
        except SimCrash:
            ended = "complete"
        except Exception as e:  # noqa: the harness does not expect this exception
            ended = "exception"
            alts = E.alts
            E.alts = []
            vals = self.model()
            if vals is not None:
                tb = traceback.extract_tb(e.__traceback__)
                where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-6:])
                msg = " ".join(x for x in e.args if x.__class__ is str)
                self.cand(ji, "unexpected exception", ctx.model_inputs(vals),
                          "%s: %s at %s" % (type(e).__name__, msg[:200], where))
                k = "%s at %s" % (type(e).__name__, where.split("; ")[-1])
                st["errors"][k] = st["errors"].get(k, 0) + 1
        except Control as e:
            ended = "pruned"
        E.stats.exec_s += time.perf_counter() - t
        for label, inputs in ctx.violations:
            self.cand(ji, label, inputs, "assertion refuted by the solver")
        for kid, label, inputs in ctx.known_hits:
            self.known.setdefault(kid, []).append((ji, label, _rp.jenc(inputs)))
            del self.known[kid][2:]
        E.stats.paths += 1
        st["paths"] += 1
        st[ended] = st.get(ended, 0) + 1
        for k, n in ctx.labels.items():
            st["labels"][k] = st["labels"].get(k, 0) + n
        st["cov"] |= E.cov
        if ended == "complete":
            # reservoir sample of path models for validation against the real code
            n = self.trace_seen[ji] = self.trace_seen.get(ji, 0) + 1
            cap = max(1, self.trace_rate)
            if n <= cap or self.rng.random() < cap / n:
                vals = self.model()
                if vals is not None:
                    obs = None
                    if not E.path_approx:
                        try:
                            obs = [(k, _rp.jenc(val_at(v, vals))) for k, v in ctx.obs]
                        except Exception:  # noqa
                            obs = None
                    rec = (ji, _rp.jenc(ctx.model_inputs(vals)), obs)
                    mine = [i for i, r in enumerate(self.traces) if r[0] == ji]
                    if len(mine) < cap:
                        self.traces.append(rec)
                    else:
                        self.traces[self.rng.choice(mine)] = rec
        return E.alts if alts is None else alts

    def report(self):
        return dict(stats=E.stats.as_dict(), notes=dict(E.notes), js=self.js, known=self.known,
                    traces=self.traces, uns=self.uns_samples, nviol=self.nviol)


def _guard(event, args):
    """Workers execute models only: refuse real file-system changes and processes."""
    if event == "open":
        if isinstance(args[0], int) or not (args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            return
        if args[0] == os.devnull or str(args[0]).startswith("/dev/shm"):
            return
    elif event not in ("os.mkdir", "os.remove", "os.rmdir", "os.rename", "os.system", "subprocess.Popen", "shutil.rmtree"):
        return
    raise Unsupported("native %s on the real system" % event)


def _too_long(signum, frame):
    raise BudgetExceeded("a path took more than %d s of processor time" % PATH_CPU_S)


def _worker(wid, world, jobs, taskq, resq, outstanding, idle, stop, deadline, seed, trace_rate):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGPROF, _too_long)
    sys.setrecursionlimit(3000)
    devnull = open(os.devnull, "w")
    sys.stdout = sys.stderr = devnull
    sys.addaudithook(_guard)
    try:
        E.stats = Stats()
        E.notes = {}
        w = Worker(world, jobs, seed * 1000 + wid, trace_rate)
        sent = 0
        truncated = {}
        while not stop.is_set():
            with idle.get_lock():
                idle.value += 1
            task = None
            while task is None and not stop.is_set():
                try:
                    task = taskq.get(timeout=0.05)
                except queue.Empty:
                    if outstanding.value <= 0 or time.time() > deadline:
                        break
            with idle.get_lock():
                idle.value -= 1
            if task is None:
                break
            ji, prefixes = task
            stack = list(prefixes)
            t0 = time.time()
            n = 0
            while stack:
                now = time.time()
                if now > deadline or stop.is_set():
                    truncated[ji] = truncated.get(ji, 0) + len(stack)
                    stack = []
                    break
                if now - t0 > SLICE_S or (idle.value > 0 and len(stack) > 1 and n > 0):
                    # hand work back: everything on a time-out, half when others idle
                    if now - t0 > SLICE_S:
                        give, stack = stack, []
                    else:
                        w.rng.shuffle(stack)
                        h = (len(stack) + 1) // 2
                        give, stack = stack[:h], stack[h:]
                    m = max(1, min(64, len(give) // 8 or 1)) if len(give) > 8 else 1
                    for i in range(0, len(give), m):
                        with outstanding.get_lock():
                            outstanding.value += 1
                        taskq.put((ji, give[i:i + m]))
                    if not stack:
                        break
                i = w.rng.randrange(len(stack))
                stack[i], stack[-1] = stack[-1], stack[i]
                prefix = stack.pop()
                stack.extend(w.run_path(ji, prefix))
                n += 1
                while sent < len(w.viol):
                    resq.put(("viol", w.viol[sent]))
                    sent += 1
            with outstanding.get_lock():
                outstanding.value -= 1
        r = w.report()
        r["truncated"] = truncated
        resq.put(("done", r))
    except BaseException as e:  # noqa
        resq.put(("crash", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())))
    finally:
        resq.close()
        resq.join_thread()
        os._exit(0)


class Result:
    def __init__(self, jobs):
        self.jobs = jobs
        self.stats = Stats()
        self.notes = {}
        self.js = [dict(paths=0, labels={}, cov=set(), errors={}, unsup={}) for _ in jobs]
        self.known = {}
        self.traces = []
        self.uns = []
        self.viol = []
        self.nviol = {}
        self.truncated = {}
        self.crashes = []
        self.leftover = 0


def explore(world, jobs, budget_s, seed, nworkers, trace_rate=6, on_violation=None):
    """Explore all jobs; on_violation(record) -> True stops the exploration."""
    ctx = mp.get_context("fork")
    taskq, resq = ctx.Queue(), ctx.Queue()
    outstanding, idle = ctx.Value("i", len(jobs)), ctx.Value("i", 0)
    stop = ctx.Event()
    deadline = time.time() + budget_s
    order = list(range(len(jobs)))
    for ji in order:
        taskq.put((ji, [()]))
    procs = [ctx.Process(target=_worker, args=(i, world, jobs, taskq, resq, outstanding, idle, stop, deadline, seed,
                                               trace_rate), daemon=True) for i in range(nworkers)]
    for p in procs:
        p.start()
    res = Result(jobs)
    pending = nworkers
    hard = deadline + 120
    while pending and time.time() < hard:
        try:
            kind, data = resq.get(timeout=0.5)
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                try:
                    kind, data = resq.get(timeout=1)
                except queue.Empty:
                    break
            else:
                continue
        if kind == "viol":
            res.viol.append(data)
            if on_violation is not None and not stop.is_set() and on_violation(data):
                stop.set()
        elif kind == "crash":
            res.crashes.append(data)
            pending -= 1
            stop.set()
        else:
            pending -= 1
            res.stats.merge(data["stats"])
            for k, n in data["notes"].items():
                res.notes[k] = res.notes.get(k, 0) + n
            for a, b in zip(res.js, data["js"]):
                for k, v in b.items():
                    if isinstance(v, int):
                        a[k] = a.get(k, 0) + v
                    elif isinstance(v, set):
                        a[k] |= v
                    else:
                        for kk, n in v.items():
                            a[k][kk] = a[k].get(kk, 0) + n
            for k, v in data["known"].items():
                res.known.setdefault(k, []).extend(v)
            res.traces += data["traces"]
            res.uns += data["uns"]
            for k, n in data["nviol"].items():
                res.nviol[k] = res.nviol.get(k, 0) + n
            for k, n in data["truncated"].items():
                res.truncated[k] = res.truncated.get(k, 0) + n
    if pending and not stop.is_set():
        res.crashes.append("%d workers did not finish" % pending)
    for p in procs:
        if p.is_alive():
            p.kill()
    # tasks never started
    try:
        while True:
            ji, prefixes = taskq.get_nowait()
            res.truncated[ji] = res.truncated.get(ji, 0) + len(prefixes)
    except queue.Empty:
        pass
    taskq.cancel_join_thread()
    resq.cancel_join_thread()
    res.stopped = stop.is_set()
    return res
