"""The simulator: one baton, seeded switches, fault plan, crash plan, event log."""
import hashlib
import json
import sys
import threading

from . import boot, faults, seams

_PKG = None


class SimBudget(BaseException):
    """A bounded operation exceeded its step or seam-call budget."""


class Deadlock(BaseException):
    pass


class _TS:
    """State of one simulated thread."""
    __slots__ = ("tid", "steps", "seam_counts", "op", "done", "blocked", "gate", "result", "seam_depth",
                 "crash_at", "crash_exc", "crashed", "seam_steps", "crash_seam", "total_seams", "seam_list", "first_lines", "inside")

    def __init__(self, tid):
        self.tid = tid
        self.steps = 0
        self.seam_counts = {}
        self.op = None
        self.done = False
        self.blocked = None
        self.gate = None
        self.result = None
        self.seam_depth = 0
        self.crash_at = None
        self.crash_exc = None
        self.crashed = None
        self.seam_steps = []
        self.crash_seam = None
        self.total_seams = 0
        self.seam_list = []
        self.first_lines = {}
        self.inside = False      # the crash was delivered while a dependency was calling back


class Sim:
    """One simulated execution.

    faults:   {(op key, seam class, n): action}; op key None matches any op
    switches: {(tid, step): target tid}
    """

    def __init__(self, faults_plan=None, switches=None, seam_budget=4000, step_budget=20_000_000):
        self.faults = faults_plan or {}
        self.switches = switches or {}
        self.seam_budget = seam_budget
        self.step_budget = step_budget
        self.threads = {}
        self.by_ident = {}
        self.events = []
        self.fired = []
        self.counts = {"seam_calls": 0, "lines": 0, "switches": 0}
        self.trace_on = False
        self.switch_log = []
        self.observers = []      # f(cls, name, a, k, result or exception)
        self.serial_ts = _TS(0)
        self.deadlock = False
        self.skip_crash_lines = None
        self.record_lines = False
        self.on_crash = None     # called at the crash point, before anything unwinds
        self.clock = 1.7e9       # simulated wall clock, moved by jumps
        self.clock_reads = 0

    # -- context --------------------------------------------------------
    def __enter__(self):
        seams.ACTIVE = self
        return self

    def __exit__(self, *exc):
        seams.ACTIVE = None

    def ts(self):
        return self.by_ident.get(threading.get_ident(), self.serial_ts)

    def begin_op(self, key):
        t = self.ts()
        t.op = key
        t.seam_counts = {}
        t.seam_list = []
        t.total_seams = 0

    def log(self, *ev):
        self.events.append(ev)

    def digest(self):
        return hashlib.sha256(json.dumps(self.events, default=str).encode()).hexdigest()[:16]

    # -- seams ----------------------------------------------------------
    def on_seam(self, cls, name, orig, a, k):
        t = self.ts()
        if t.seam_depth:
            return orig(*a, **k)
        n = t.seam_counts.get(cls, 0)
        t.seam_counts[cls] = n + 1
        t.seam_list.append((cls, n, name))
        t.total_seams += 1
        self.counts["seam_calls"] += 1
        if t.total_seams > self.seam_budget:
            raise SimBudget(f"more than {self.seam_budget} dependency calls in one operation")
        self.step(t, True)
        if t.crash_seam is not None and t.total_seams == t.crash_seam[0]:
            kind, when = t.crash_seam[1], t.crash_seam[2]
            if when == "after":
                t.seam_depth += 1
                try:
                    orig(*a, **k)
                finally:
                    t.seam_depth -= 1
            t.crashed = f"seam {name} {when}"
            self.fired.append(f"crash/{kind}@seam")
            raise faults.injected(kind, f"interrupt {when} {name}")
        action = self.faults.get((t.op, cls, n)) or self.faults.get((t.op, cls, "*")) or \
            self.faults.get((None, cls, n))
        t.seam_depth += 1
        outcome = "ok"
        tracer = sys.gettrace() if cls in ("solver", "milp") else None      # these never call back into the library
        if tracer is not None:
            sys.settrace(None)
        try:
            try:
                if action is None:
                    res = orig(*a, **k)
                else:
                    res, fired = faults.apply(action, cls, name, orig, a, k)
                    if fired:
                        outcome = faults.label(cls, action)
                        self.fired.append(outcome)
            finally:
                if tracer is not None:
                    sys.settrace(tracer)
        except BaseException as e:
            outcome = "raise " + type(e).__name__
            if isinstance(e, faults.InjectedMixin):
                self.fired.append(faults.label(cls, action))
            for ob in self.observers:
                ob(t, cls, name, a, k, e)
            raise
        finally:
            t.seam_depth -= 1
            self.log(t.tid, "seam", name.rsplit(".", 1)[-1], outcome)
        for ob in self.observers:
            ob(t, cls, name, a, k, res)
        self.step(t, True)
        return res

    def read_clock(self):
        self.clock_reads += 1
        self.clock += (0.0, 1e-6, 3.7, -2.0, 86400.0)[self.clock_reads % 5]
        self.counts["clock_reads"] = self.clock_reads
        return self.clock

    def callback(self, name):
        """Called by simulator-owned user callbacks.  May raise the planned fault."""
        t = self.ts()
        cls = "callback:" + name
        n = t.seam_counts.get(cls, 0)
        t.seam_counts[cls] = n + 1
        t.seam_list.append((cls, n, name))
        self.step(t, True)
        action = self.faults.get((t.op, cls, n))
        self.log(t.tid, "cb", name, n, bool(action))
        if action is not None:
            self.fired.append(faults.label("callback", action))
            raise faults.injected(action["exc"], f"callback {name} #{n}")

    # -- tracing --------------------------------------------------------
    def _tracer(self, t):
        pkg = boot.PKG
        step = self.step
        skip = self.skip_crash_lines
        record = t.first_lines if self.record_lines else None

        def local(frame, event, arg):
            if event == "line":
                if t.crash_at is not None and t.steps + 1 == t.crash_at:
                    if skip is not None and skip(frame):
                        t.crash_at += 1
                    else:
                        t.steps += 1
                        t.crashed = f"{frame.f_code.co_filename[len(boot.REPO):]}:{frame.f_lineno}"
                        t.crash_at = None
                        t.inside = t.seam_depth > 0
                        self.fired.append("crash/" + t.crash_exc + "@line")
                        if self.on_crash is not None:
                            self.on_crash()
                        raise faults.injected(t.crash_exc, "interrupt at " + t.crashed)
                if record is not None:
                    key = (frame.f_code.co_filename, frame.f_lineno)
                    if key not in record:
                        record[key] = t.steps + 1
                step(t, False)
            return local

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(pkg):
                return local
            return None
        return glob

    def step(self, t, is_seam):
        t.steps += 1
        self.counts["lines"] += 1
        if is_seam:
            t.seam_steps.append(t.steps)
        if t.steps > self.step_budget:
            raise SimBudget(f"more than {self.step_budget} steps in one operation")
        target = self.switches.get((t.tid, t.steps))
        if target is not None:
            self.switch_to(t, target)

    def run_traced(self, fn, crash_at=None, crash_exc="KeyboardInterrupt", crash_seam=None):
        """Run fn in this thread with line tracing (serial mode)."""
        t = self.serial_ts
        t.steps = 0
        t.seam_steps = []
        t.first_lines = {}
        t.total_seams = 0
        t.crashed = None
        t.inside = False
        t.crash_at, t.crash_exc, t.crash_seam = crash_at, crash_exc, crash_seam
        sys.settrace(self._tracer(t))
        try:
            return fn()
        finally:
            sys.settrace(None)
            t.crash_at = None
            t.crash_seam = None

    # -- threads --------------------------------------------------------
    def _pick(self, avoid=None):
        """Next runnable thread after `avoid` in cyclic order."""
        n = len(self.threads)
        start = 0 if avoid is None else avoid + 1
        for i in range(n):
            t = self.threads[(start + i) % n]
            if not t.done and (t.blocked is None or t.blocked._n == 0) and t.tid != avoid:
                return t
        return None

    def switch_to(self, t, target):
        if t.tid not in self.threads:
            return
        o = self.threads.get(target)
        if o is None or o.done or o is t or (o.blocked is not None and o.blocked._n > 0):
            return
        self.counts["switches"] += 1
        self.switch_log.append((t.tid, t.steps, target))
        self.log(t.tid, "switch", target)
        o.gate.release()
        t.gate.acquire()
        if self.deadlock:
            raise Deadlock()

    def block_on(self, lock):
        t = self.ts()
        if t.tid not in self.threads or not self.threads:
            raise Deadlock("lock held and no other thread")
        t.blocked = lock
        while lock._n > 0:
            o = self._pick(avoid=t.tid)
            if o is None:
                self.deadlock = True
                for x in self.threads.values():
                    if x is not t and not x.done:
                        x.gate.release()
                raise Deadlock("all threads blocked")
            self.log(t.tid, "block", o.tid)
            o.gate.release()
            t.gate.acquire()
            if self.deadlock:
                raise Deadlock()
        t.blocked = None

    def run_threads(self, fns, first=0):
        """Run fns concurrently, one at a time, switching only where planned."""
        self.threads = {i: _TS(i) for i in range(len(fns))}
        for t in self.threads.values():
            t.gate = threading.Semaphore(0)
        all_done = threading.Semaphore(0)

        def body(t, fn):
            t.gate.acquire()
            self.by_ident[threading.get_ident()] = t
            sys.settrace(self._tracer(t))
            try:
                t.result = ("ok", fn())
            except BaseException as e:
                t.result = ("exc", e)
            finally:
                sys.settrace(None)
                t.done = True
                o = self._pick(avoid=t.tid)
                if o is None:
                    left = [x for x in self.threads.values() if not x.done]
                    if left and not self.deadlock:
                        self.deadlock = True
                        for x in left:
                            x.gate.release()
                    if not left:
                        all_done.release()
                elif not self.deadlock:
                    o.gate.release()
                if self.deadlock and all(x.done for x in self.threads.values()):
                    all_done.release()

        ths = [threading.Thread(target=body, args=(self.threads[i], fn), daemon=True)
               for i, fn in enumerate(fns)]
        for th in ths:
            th.start()
        self.threads[first].gate.release()
        all_done.acquire()
        for th in ths:
            th.join()
        out = [self.threads[i].result for i in range(len(fns))]
        self.last_threads = self.threads
        self.threads = {}
        self.by_ident = {}
        return out


# ---------------------------------------------------------------------------
_FINALLY = {}


def cleanup_lines(filename):
    """Lines inside `finally` blocks and on `with` headers of a library file."""
    s = _FINALLY.get(filename)
    if s is None:
        import ast
        s = set()
        try:
            tree = ast.parse(open(filename).read())
            for node in ast.walk(tree):
                if isinstance(node, ast.Try):
                    for st in node.finalbody:
                        s.update(range(st.lineno, st.end_lineno + 1))
                elif isinstance(node, (ast.With, ast.AsyncWith)):
                    s.update(range(node.lineno, node.body[0].lineno))
        except Exception:
            pass
        _FINALLY[filename] = s
    return s


_HOT = {}


def _outlives(target, own):
    """Whether a store to `target` survives the function (object attribute, global, entry of a non-local container)."""
    import ast
    if isinstance(target, (ast.Tuple, ast.List)):
        return any(_outlives(e, own) for e in target.elts)
    if isinstance(target, ast.Starred):
        return _outlives(target.value, own)
    if isinstance(target, ast.Attribute):
        return True
    if isinstance(target, ast.Subscript):
        v = target.value
        while isinstance(v, ast.Subscript):
            v = v.value
        return isinstance(v, ast.Attribute) or isinstance(v, ast.Name) and v.id not in own
    return False


def hot_lines(filename):
    """(last lines of statements whose effect outlives the call, lines inside `try` bodies that have handlers).

    Only used to choose where interrupts and switches are likely to matter.
    """
    h = _HOT.get(filename)
    if h is None:
        import ast
        stores, tries = set(), set()
        try:
            tree = ast.parse(open(filename).read())
        except Exception:
            tree = ast.Module([], [])
        for f in ast.walk(tree):
            if isinstance(f, (ast.Try, getattr(ast, "TryStar", ast.Try))) and f.handlers:
                for st in f.body:
                    tries.update(range(st.lineno, st.end_lineno + 1))
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            glob = {n for g in ast.walk(f) if isinstance(g, ast.Global) for n in g.names}
            own = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - glob
            own |= {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs if a.arg != "self"} - glob
            for st in ast.walk(f):
                t = st.targets if isinstance(st, (ast.Assign, ast.Delete)) else [st.target] if isinstance(st, (ast.AugAssign, ast.AnnAssign)) else []
                hit = any(_outlives(e, own) or isinstance(e, ast.Name) and e.id in glob for e in t)
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute):
                    v = st.value.func.value
                    hit = st.value.func.attr not in ("debug", "info", "warning") and (
                        isinstance(v, ast.Attribute) or isinstance(v, ast.Name) and v.id not in own)
                if isinstance(st, (ast.With, ast.AsyncWith)):
                    stores.add(st.body[0].lineno - 1 if st.body[0].lineno > st.lineno else st.lineno)
                if hit:
                    stores.add(st.lineno)
        h = _HOT[filename] = (stores, tries)
    return h


def hot_steps(first_lines, guarded=True):
    """Steps right after a lasting effect, and (unless not `guarded`) steps inside guarded blocks, of one recorded run."""
    out = set()
    for (fn, line), step in first_lines.items():
        stores, tries = hot_lines(fn)
        if line in stores:
            out.add(step + 1)
        if guarded and line in tries:
            out.add(step)
    return sorted(out)


def skip_cleanup(frame):
    return frame.f_lineno in cleanup_lines(frame.f_code.co_filename)
