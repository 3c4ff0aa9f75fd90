"""
The scheduler.

Simulated threads are real threads, parked and released one at a time: exactly one runs
at any moment and it only gives way where the simulator says so.  Potential switch and
fault points are the line events (or, per run, the bytecode events) of the code under
test plus explicit points in harness callbacks.  Each thread counts its own points
("steps"); a plan maps (thread, step) to an action, so an execution is a pure function of
(case, code).
"""
import dis
import hashlib
import sys
import threading
import _thread

from . import boot, locks

real_lock = _thread.allocate_lock
_is_repo = {}


def is_repo_code(code):
    v = _is_repo.get(code)
    if v is None:
        v = code.co_filename.startswith(boot.PKG)
        _is_repo[code] = v
    return v


_store_lines = {}
_STORE_OPS = ("STORE_ATTR", "STORE_GLOBAL", "STORE_SUBSCR", "DELETE_SUBSCR", "DELETE_ATTR", "STORE_DEREF")


def store_lines(code):
    """Lines of a code object that write to something other than a local variable."""
    v = _store_lines.get(code)
    if v is None:
        v = set()
        line = code.co_firstlineno
        for ins in dis.get_instructions(code):
            if ins.starts_line is not None:
                line = ins.starts_line
            if ins.opname in _STORE_OPS:
                v.add(line)
        _store_lines[code] = v
    return v


_guarded = {}


def guarded_lines(filename):
    """
    Lines at which no fault is placed: clean-up code (finally blocks, exception handlers) and
    `try` lines.  An interrupt between acquiring something and entering the try block that
    releases it, or inside the clean-up itself, cannot be defended against in Python.
    """
    v = _guarded.get(filename)
    if v is None:
        import ast

        v = set()
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
            for n in ast.walk(tree):
                if isinstance(n, ast.Try):
                    v.add(n.lineno)
                    for s in list(n.finalbody):
                        v.update(range(s.lineno, s.end_lineno + 1))
                    for h in n.handlers:
                        v.update(range(h.lineno, h.end_lineno + 1))
                elif isinstance(n, ast.FunctionDef) and n.name in ("__exit__", "__del__", "__enter__"):
                    v.update(range(n.lineno, n.end_lineno + 1))
        except (OSError, SyntaxError):
            pass
        _guarded[filename] = v
    return v


_withexit = {}


def with_exit_offsets(code):
    """Instruction offsets where a with statement starts calling __exit__(None, None, None)."""
    v = _withexit.get(code)
    if v is None:
        v = set()
        ins = list(dis.get_instructions(code))
        for a, b, c in zip(ins, ins[1:], ins[2:]):
            if a.opname == "LOAD_CONST" and a.argval is None and b.opname in ("LOAD_CONST", "COPY") and c.opname in ("LOAD_CONST", "COPY"):
                v.add(a.offset)
        _withexit[code] = v
    return v


class SimHang(BaseException):
    """Step budget exceeded."""


class SimDeadlock(BaseException):
    pass


class Injected:
    """Marks exceptions made by the simulator."""

    made = {}

    @staticmethod
    def make(name, note=""):
        import numpy as np

        msg = "injected:" + note
        table = {
            "KeyboardInterrupt": KeyboardInterrupt,
            "MemoryError": MemoryError,
            "LinAlgError": np.linalg.LinAlgError,
            "RuntimeError": RuntimeError,
            "FloatingPointError": FloatingPointError,
            "OSError": OSError,
            "BrokenPipeError": BrokenPipeError,
            "ValueError": ValueError,
            "TimeoutError": TimeoutError,
            "SystemExit": SystemExit,
            "AttributeError": AttributeError,
            "TypeError": TypeError,
            "IndexError": IndexError,
            "KeyError": KeyError,
            "ArithmeticError": ArithmeticError,
            "StopIteration": StopIteration,
        }
        e = table[name](msg)
        e._simkit_injected = True
        return e


class Thread:
    def __init__(self, tid, fn, plan):
        self.tid = tid
        self.fn = fn
        self.n = 0
        self.plan = plan  # step -> list of actions
        self.lock = real_lock()
        self.lock.acquire()
        self.done = False
        self.blocked = False
        self.waits = None
        self.timed = False
        self.timeout_fired = False
        self.result = None
        self.error = None
        self.frame = None


class Sim:
    def __init__(self, opcodes=False, budget=3_000_000, record=False):
        self.opcodes = opcodes
        self.budget = budget
        self.record = record
        self.threads = []
        self.by_ident = {}
        self.total = 0
        self.sites = {}      # (file, func, line) -> [per thread list of (tid, step)]
        self.switches = []   # (tid, step, site, to)
        self.fired = []      # faults fired: (tid, step, site, name)
        self.deadlock = None
        self.hang = None
        self.lines_seen = set()
        self.after_store = {}
        self._prev_store = {}
        self.finish_order = []
        self._main = real_lock()
        self.clockhook = None

    # -- construction ---------------------------------------------------------
    def add(self, fn, plan=None):
        p = {}
        for act in plan or []:
            p.setdefault(act["step"], []).append(act)
        t = Thread(len(self.threads), fn, p)
        self.threads.append(t)
        return t

    # -- tracing --------------------------------------------------------------
    def _tracer(self, th):
        ev = "opcode" if self.opcodes else "line"
        opcodes = self.opcodes
        step = self.step

        def local(frame, event, arg):
            if event == ev:
                th.frame = frame
                step(th, frame.f_code, frame.f_lineno or 0)
            return local

        def glob(frame, event, arg):
            code = frame.f_code
            if event == "call" and is_repo_code(code):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None

        return glob

    def traced(self, th, fn):
        sys.settrace(self._tracer(th))
        try:
            return fn()
        finally:
            sys.settrace(None)

    # -- one step -------------------------------------------------------------
    def step(self, th, code, line):
        th.n += 1
        self.total += 1
        if self.total > self.budget:
            if self.hang is None:
                self.hang = "%s:%d" % (code.co_name if code is not None else "callback", line)
            raise SimHang("step budget exceeded at " + self.hang)
        if self.record:
            if code is None:
                site = ("<callback>", "cb", line)
                stores = False
            else:
                site = (code.co_filename[len(boot.PKG):], code.co_name, line)
                stores = line in store_lines(code)
            L = self.sites.setdefault(site, [])
            if len(L) < 400:
                L.append((th.tid, th.n))
            elif th.n % 97 == 0 and len(L) < 800:
                L.append((th.tid, th.n))
            if self._prev_store.get(th.tid):
                M = self.after_store.setdefault(self._prev_store[th.tid], [])
                if len(M) < 400:
                    M.append((th.tid, th.n))
            self._prev_store[th.tid] = site if stores else None
        acts = th.plan.get(th.n)
        if acts:
            for act in acts:
                if act["do"] == "raise" and code is not None and (
                        line in guarded_lines(code.co_filename) or th.frame.f_lasti in with_exit_offsets(code)):
                    # clean-up in progress: the fault hits the next instant after it
                    th.plan.setdefault(th.n + 1, []).append(act)
                    continue
                self.act(th, act, code, line)

    def act(self, th, act, code, line):
        site = (code.co_name if code is not None else "cb", line)
        if act["do"] == "switch":
            to = act["to"] % len(self.threads)
            self.switch(th, to, site)
        elif act["do"] == "raise":
            self.fired.append((th.tid, th.n, site, act["exc"]))
            raise Injected.make(act["exc"], "t%d step %d" % (th.tid, th.n))
        elif act["do"] == "call":
            act["fn"](th)

    # -- scheduling -----------------------------------------------------------
    def alive(self):
        return [t for t in self.threads if not t.done]

    def runnable(self, but=None):
        return [t for t in self.threads if not t.done and not t.blocked and t is not but]

    def switch(self, th, to, site=("", 0)):
        tgt = self.threads[to]
        if tgt is th or tgt.done or tgt.blocked:
            c = self.runnable(but=th)
            if not c:
                return
            tgt = min(c, key=lambda t: (t.tid - to) % len(self.threads))
        self.switches.append((th.tid, th.n, site, tgt.tid))
        self._transfer(th, tgt)

    def _transfer(self, th, tgt):
        tgt.lock.release()
        th.lock.acquire()
        if self.deadlock:
            raise SimDeadlock(self.deadlock)

    # lock hook
    def in_sim_thread(self):
        return _thread.get_ident() in self.by_ident

    def block_on(self, lock, timeout):
        th = self.by_ident[_thread.get_ident()]
        c = self.runnable(but=th)
        if timeout is not None and timeout >= 0:
            # virtual time: a timed wait expires once nobody else can run
            if not c:
                return False
            self._transfer_log(th, c)
            return True
        th.blocked = True
        th.waits = lock
        if not c:
            self.deadlock = "threads %s all wait for locks" % sorted(t.tid for t in self.alive())
            raise SimDeadlock(self.deadlock)
        self._transfer_log(th, c)
        return True

    def _transfer_log(self, th, c):
        tgt = min(c, key=lambda t: (t.tid - th.tid - 1) % len(self.threads))
        self.switches.append((th.tid, th.n, ("lock", 0), tgt.tid))
        self._transfer(th, tgt)

    def wake(self, lock):
        for t in self.threads:
            if t.blocked and t.waits is lock:
                t.blocked = False
                t.waits = None

    def _body(self, th):
        th.lock.acquire()
        self.by_ident[_thread.get_ident()] = th
        try:
            if self.deadlock:
                raise SimDeadlock(self.deadlock)
            th.result = th.fn(th)
        except BaseException as e:  # harness-level or SimHang/SimDeadlock
            th.error = e
        finally:
            sys.settrace(None)
            th.done = True
            self.finish_order.append(th.tid)
            self.by_ident.pop(_thread.get_ident(), None)
            c = self.runnable()
            if c:
                min(c, key=lambda t: (t.tid - th.tid - 1) % len(self.threads)).lock.release()
            else:
                left = self.alive()
                if left:  # everybody left waits for a lock nobody will release
                    if not self.deadlock:
                        self.deadlock = "threads %s wait for locks that are never released" % [t.tid for t in left]
                    left[0].lock.release()
                else:
                    self._main.release()

    def run(self, first=0):
        self._main.acquire()
        locks.set_hook(self)
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
            self.threads[first % len(self.threads)].lock.release()
            self._main.acquire()
            self._main.release()
        finally:
            locks.set_hook(None)

    def digest(self):
        h = hashlib.sha256()
        for s in self.switches:
            h.update(repr(s).encode())
        for f in self.fired:
            h.update(repr(f).encode())
        return h.hexdigest()[:16]


class Solo:
    """Single caller: trace in the current thread (used when nothing is scheduled)."""

    def __init__(self, opcodes=False, budget=3_000_000, record=False, plan=None):
        self.sim = Sim(opcodes, budget, record)
        self.th = self.sim.add(None, plan)

    def run(self, fn):
        return self.sim.traced(self.th, fn)

    def point(self, k=0):
        self.sim.step(self.th, None, k)


def pick_steps(sim, requests, tids=None):
    """
    Turn abstract requests (dicts with u1,u2,mode,tid) into concrete steps from a recorded run.
    mode: "site" (uniform over distinct source sites), "store" (right after a write to shared
    state), "uniform".
    """
    out = []
    by_site = {}
    for site, L in sorted(sim.sites.items()):
        for tid, n in L:
            by_site.setdefault(tid, {}).setdefault(site, []).append(n)
    by_store = {}
    for site, L in sorted(sim.after_store.items()):
        for tid, n in L:
            by_store.setdefault(tid, {}).setdefault(site, []).append(n)
    for q in requests:
        tid = q["tid"]
        total = sim.threads[tid].n if tid < len(sim.threads) else 0
        if total == 0:
            out.append(None)
            continue
        mode = q["mode"]
        table = by_store.get(tid) if mode == "store" else by_site.get(tid) if mode == "site" else None
        if table:
            keys = sorted(table)
            site = keys[int(q["u1"] * len(keys)) % len(keys)]
            occ = table[site]
            # first and last occurrences are the interesting ones
            if q["u2"] < 0.4:
                step = occ[0]
            elif q["u2"] < 0.6:
                step = occ[-1]
            else:
                step = occ[int((q["u2"] - 0.6) / 0.4 * len(occ)) % len(occ)]
            step += q.get("off", 0)
        else:
            step = 1 + int(q["u1"] * total) % total
        out.append(max(1, min(step, total)))
    return out
