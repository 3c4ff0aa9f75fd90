"""Run a function in a forked child: pristine module state, crash and hang isolation."""
import gc
import os
import pickle
import select
import signal
import sys
import time
import traceback

_now = time.monotonic
DEBUG = bool(os.environ.get("VERIF_DEBUG"))


class ChildFailure(Exception):
    """The harness itself failed inside the child."""


class ChildDied(Exception):
    """The child was killed by a signal (crash in native code)."""


class ChildHung(Exception):
    """The child used more processor time than it may, or stands still."""


def cpu_time(pid):
    with open("/proc/%d/stat" % pid) as f:
        v = f.read().rsplit(")", 1)[1].split()
    return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")


def fork_call(fn, *args, timeout=120.0):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            gc.disable()
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            if not DEBUG:
                os.dup2(null, 2)
            try:
                res = ("ok", fn(*args))
                data = pickle.dumps(res, protocol=4)
            except BaseException:
                data = pickle.dumps(("err", traceback.format_exc()), protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    start = _now()
    marks = [(start, 0.0)]      # (when, processor time used)
    hung = None
    while True:
        ready, _, _ = select.select([r], [], [], 1.0)
        if ready:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
            continue
        t, c = _now(), cpu_time(pid)
        if c > timeout:
            hung = "no answer within %.0f s of processor time" % timeout
        elif t - start > timeout:
            # on a busy machine a call may take long; one that waits for something does not even compute
            marks = [m for m in marks if t - m[0] <= 20]
            if marks and t - marks[0][0] >= 15 and c - marks[0][1] < 0.1:
                hung = "it stands still"
            elif t - start > 15 * timeout:
                hung = "no answer within %.0f s" % (15 * timeout)
        marks.append((t, c))
        if hung:
            break
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise ChildHung(hung)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        raise ChildDied("killed by signal %d" % os.WTERMSIG(st))
    data = b"".join(chunks)
    if not data:
        raise ChildDied("exit status %d without an answer" % os.WEXITSTATUS(st))
    kind, val = pickle.loads(data)
    if kind == "err":
        raise ChildFailure(val)
    return val
