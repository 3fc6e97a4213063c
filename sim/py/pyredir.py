"""Redirection of the C++ output to the notebook, and captured output, with simulated file descriptors and threads (Y03)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import types
import pysim
from pysim import Rng, SimProc, Violation, Killed, Harness, mix

NAME = "pyredir"
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "python")
CAPACITY = 65536
MAXSTEPS = 20000
TEXTS = 6
SEC = 1000000000


def generate(g, p):
    p.cfg.setdefault("ranks", 1)
    p.cfg["background"] = g.pick([0, 0, 1])  # a C++ thread that writes all the time
    p.cfg["end"] = g.below(2)
    if g.chance(0.15):
        for _ in range(g.range(1, 5)):
            p.op(0, "capture", g.below(1 << 30), g.range(1, 3), g.below(3))
        return
    big = g.chance(0.06)
    for _ in range(g.range(3, 14)):
        o = g.below(12)
        if o < 3:
            p.op(0, "start")
        elif o < 5:
            p.op(0, "stop")
        elif o < 10:
            gil = g.below(2)
            n = g.pick([0, 1, 2, 7, 100, 100, 3000, 9999, 10000, 10001, 30000])
            if not gil and g.chance(0.1) or big and g.chance(0.3):
                n = g.pick([65536, 70000, 200000])
            p.op(0, "write", g.below(1 << 30), gil, n, g.below(TEXTS))
        else:
            p.op(0, "wait", g.pick([0, 1, 10, 900, 1000, 1001, 5000, 40000]))
    for _ in range(g.pick([0, 0, 0, 1, 2])):
        o = g.below(4)
        if o == 0:
            p.fault("emfile", g.range(1, 8))
        elif o == 1:
            p.fault("nothread", g.range(1, 2))
        elif o == 2:
            p.fault("screen", g.range(1, 6))
        else:
            p.fault("freeze", g.pick([1, 10, 200, 3000, 20000]))  # ms: the program is stopped as a whole for a while


def text(v, n, kind):
    g = Rng(mix(v))
    if kind <= 1:
        a = b"abcdefgh 0123456789,.\n"
        b = bytes(a[g.below(len(a))] for _ in range(min(n, 64)))
        b = b * (n // max(1, len(b)) + 1)
        return b[:max(0, n - 8)] + b"%08d" % (v % 100000000) if n >= 8 else b[:n]
    if kind == 2:  # characters of 2..4 bytes
        c = ["\u00e9", "\u20ac", "\U0001d6fd", "x", "\u2264"]
        s = "".join(c[g.below(5)] for _ in range(min(n, 64)))
        s = s * (n // 64 + 1)
        b = s.encode()[:n]
        while b:
            try:
                b.decode()
                break
            except UnicodeDecodeError:
                b = b[:-1]
        return b
    if kind == 3:  # no text
        return bytes(g.pick([65, 66, 10, 255, 128, 0x41]) for _ in range(min(n, 300)))
    return b"line %d\n" % (v % 997) * (n // 16)


def ascii_of(s):
    return "".join(c for c in s if ord(c) < 128)


def check(ok, cls, fmt, *a):
    if not ok:
        raise Violation(cls, fmt % a)


# ---------------------------------------------------------------------------------------------- file descriptors
class Pipe:
    def __init__(self):
        self.buf, self.writers, self.readers = bytearray(), 0, 0


class End:
    def __init__(self, kind, pipe=None):
        self.kind, self.pipe, self.nonblock, self.n = kind, pipe, False, 0

    def __repr__(self):
        return self.kind


class Fds:
    def __init__(self, sim):
        self.sim, self.t, self.term = sim, {}, bytearray()
        self.calls = 0
        tty = End("terminal")
        for i in range(3):
            self.put(i, tty)

    def put(self, fd, e):
        if fd in self.t:
            self.drop(fd)
        self.t[fd] = e
        e.n += 1
        if e.pipe and e.n == 1:
            if e.kind == "read end":
                e.pipe.readers += 1
            else:
                e.pipe.writers += 1

    def drop(self, fd):
        e = self.t.pop(fd)
        e.n -= 1
        if e.pipe and e.n == 0:
            if e.kind == "read end":
                e.pipe.readers -= 1
                if e.pipe.buf:
                    self.sim.w.lost += len(e.pipe.buf)
            else:
                e.pipe.writers -= 1

    def get(self, fd):
        if fd not in self.t:
            raise OSError(9, "Bad file descriptor")
        return self.t[fd]

    def new(self, k):
        self.calls += 1
        for f, a in self.sim.plan.faults:
            if f == "emfile" and a[0] == self.calls:
                self.sim.fired("no file descriptor left")
                raise OSError(24, "Too many open files")
        r, fd = [], 3
        while len(r) < k:
            if fd not in self.t:
                r.append(fd)
            fd += 1
        return r

    # the calls
    def dup(self, fd):
        self.sim.yield_()
        e = self.get(fd)
        n, = self.new(1)
        self.put(n, e)
        return n

    def dup2(self, fd, fd2, inheritable=True):
        self.sim.yield_()
        e = self.get(fd)
        if fd != fd2:
            self.put(fd2, e)
        self.sim.trace("dup2(%s, %d)", e, fd2)
        return fd2

    def pipe(self):
        self.sim.yield_()
        r, w = self.new(2)
        p = Pipe()
        self.put(r, End("read end", p))
        self.put(w, End("write end", p))
        return r, w

    def close(self, fd):
        self.sim.yield_()
        self.get(fd)
        self.drop(fd)

    def read(self, fd, n):
        s = self.sim
        s.yield_()
        e = self.get(fd)
        check(e.kind == "read end", "read", "a read from the %s", e.kind)
        p = e.pipe
        while not p.buf:
            if not p.writers:
                return b""
            if e.nonblock:
                s.w.nudge = True
                raise BlockingIOError(11, "Resource temporarily unavailable")
            s.block(lambda: p.buf or not p.writers, "the pipe")
        n = min(n, len(p.buf))
        if n > 1 and s.decide("short", 4) == 3:
            n = 1 + s.decide("shortlen", n - 1)
            s.fired("short read")
        d = bytes(p.buf[:n])
        del p.buf[:n]
        return d

    def set_blocking(self, fd, b):
        self.get(fd).nonblock = not b

    def fcntl(self, fd, cmd, arg=0):
        e = self.get(fd)
        if cmd == 4:  # F_SETFL
            e.nonblock = bool(arg & os.O_NONBLOCK)
            return 0
        if cmd == 3:
            return os.O_NONBLOCK if e.nonblock else 0
        if cmd == 1031:
            raise OSError(1, "Operation not permitted")
        return 0

    def select(self, r, w, x, timeout=None):
        s = self.sim
        r = [f if isinstance(f, int) else f.fileno() for f in r]

        def ready():
            return [f for f in r if self.get(f).pipe.buf or not self.get(f).pipe.writers]
        due = None if timeout is None else s.now + int(timeout * SEC)
        if due is not None:
            s.at(due - s.now, lambda: None)
        s.block(lambda: ready() or due is not None and s.now >= due, "select")
        return ready(), [], []


# ---------------------------------------------------------------------------------------------- threads
def make_threading(sim, p):
    m = types.ModuleType("threading")
    names = [0]

    class Thread:
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            names[0] += 1
            self._target, self._args, self._kw, self.name = target, args, kwargs or {}, name or "Thread-%d" % names[0]
            self._t, self.daemon = None, bool(daemon)
        ident = property(lambda self: id(self))

        def setDaemon(self, d):
            self.daemon = d

        def start(self):
            sim.yield_()
            sim.w.nthreads += 1
            for f, a in sim.plan.faults:
                if f == "nothread" and a[0] == sim.w.nthreads:
                    sim.fired("no thread")
                    raise RuntimeError("can't start new thread")
            if self._t:
                raise RuntimeError("threads can only be started once")
            self._t = sim.spawn("redirection%d" % sim.w.nthreads, 0, self._main, daemon=True)
            sim.w.threads.append(self)
            sim.yield_()

        def _main(self):
            trace_lines(sim)
            try:
                self.run()
            except (Violation, Harness):
                raise
            except Exception as e:
                sim.trace("thread ends with %s: %s", type(e).__name__, e)
                sim.probe("thread died")

        def run(self):
            if self._target:
                self._target(*self._args, **self._kw)

        def join(self, timeout=None):
            if self._t is None:
                raise RuntimeError("cannot join thread before it is started")
            due = None if timeout is None else sim.now + int(timeout * SEC)
            if due is not None:
                sim.at(due - sim.now, lambda: None)
            sim.block(lambda: self._t.done or due is not None and sim.now >= due, "join")

        def is_alive(self):
            sim.yield_()
            return self._t is not None and not self._t.done

    class Event:
        def __init__(self):
            self._f = False

        def set(self):
            self._f = True
            sim.yield_()

        def clear(self):
            self._f = False

        def is_set(self):
            sim.yield_()
            return self._f
        isSet = is_set

        def wait(self, timeout=None):
            due = None if timeout is None else sim.now + int(timeout * SEC)
            if due is not None:
                sim.at(due - sim.now, lambda: None)
            sim.block(lambda: self._f or due is not None and sim.now >= due, "an event")
            return self._f

    class Lock:
        def __init__(self):
            self._o, self._n = None, 0

        def acquire(self, blocking=True, timeout=-1):
            sim.yield_()
            me = sim.current
            if self._o is me and self.R:
                self._n += 1
                return True
            if self._o is not None and not blocking:
                return False
            sim.block(lambda: self._o is None, "a lock")
            self._o, self._n = me, 1
            return True

        def release(self):
            self._n -= 1
            if self._n == 0:
                self._o = None
            sim.yield_()

        def locked(self):
            return self._o is not None
        __enter__ = lambda self: self.acquire()

        def __exit__(self, *a):
            self.release()
        R = False

    class RLock(Lock):
        R = True
    main = Thread(name="MainThread")
    m.Thread, m.Event, m.Lock, m.RLock = Thread, Event, Lock, RLock
    m.current_thread = lambda: next((t for t in sim.w.threads if t._t is sim.current), main)
    m.main_thread = lambda: main
    return m


def trace_lines(sim):
    """threads may also be switched between any two lines of the code under test"""
    def local(frame, event, arg):
        if event == "line" and sim.decide("line", 6) == 5:
            sim.yield_()
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG) else None
    sys.settrace(tracer)


class Screen:
    """the notebook's stdout"""

    def __init__(self, sim):
        self.sim, self.text, self.n, self.failed, self.aside = sim, [], 0, [], None

    def write(self, x):
        s = self.sim
        if not isinstance(x, str):
            raise TypeError("write() argument must be str, not %s" % type(x).__name__)
        if self.aside is not None and s.current.name == "main":
            self.aside.append(x)
            return len(x)
        if x:
            self.n += 1
        for f, a in s.plan.faults:
            if f == "screen" and x and a[0] == self.n:
                s.fired("screen fails")
                self.failed.append(x)
                raise OSError(5, "Input/output error")
        s.yield_()
        self.text.append(x)
        return len(x)

    def flush(self):
        self.sim.yield_()

    def fileno(self):
        raise OSError("UnsupportedOperation: fileno")

    def isatty(self):
        return False


# ---------------------------------------------------------------------------------------------- the run
def setup(sim):
    w = sim.w = sim.world
    w.nthreads, w.threads, w.lost, w.atexit = 0, [], 0, []
    w.fds = Fds(sim)
    w.into, w.recent = bytearray(), []  # bytes written while redirected
    w.over = False
    p = SimProc(sim, 0, [PKG])
    o, f = p.os, w.fds
    for k in ("dup", "dup2", "pipe", "close", "read", "set_blocking"):
        setattr(o, k, getattr(f, k))
    o.O_NONBLOCK = os.O_NONBLOCK
    import fcntl
    m = types.ModuleType("fcntl")
    m.__dict__.update({k: v for k, v in fcntl.__dict__.items() if k.startswith("F_")})
    m.fcntl = f.fcntl
    q = types.ModuleType("select")
    q.select = f.select
    a = types.ModuleType("atexit")

    def register(fn, *x, **k):
        w.atexit.append((fn, x, k))
        return fn
    a.register = register
    a.unregister = lambda fn: w.atexit.__setitem__(slice(None), [z for z in w.atexit if z[0] != fn])
    p.mods.update(threading=make_threading(sim, p), fcntl=m, select=q, atexit=a)
    w.screen = Screen(sim)
    p.sys.stdout = p.sys.__stdout__ = w.screen
    sim.spawn("main", 0, lambda: main_thread(sim, p))
    if sim.cfg["background"] and any(n == "start" for _, n, _ in sim.plan.ops):
        sim.spawn("C++ thread", 0, lambda: background(sim), daemon=True)


def cpp_write(sim, b, gil, atomic=False):
    """the C++ code writes to its standard output"""
    w = sim.w
    while b:
        e = w.fds.get(1)
        if e.kind == "terminal":
            w.fds.term += b
            return
        check(e.kind == "write end", "stdout", "fd 1 is the %s", e.kind)
        q = e.pipe
        check(q.readers > 0, "sigpipe", "fd 1 is a pipe that nobody reads: the program is killed by SIGPIPE")
        room = CAPACITY - len(q.buf)
        if room < (len(b) if atomic else 1):
            if atomic:
                sim.probe("C++ thread finds the pipe full")
                return
            if gil:
                w.recent = [x for x in w.recent if x[0] > sim.now - 3 * SEC]
                n = sum(x[1] for x in w.recent) + len(b)
                check(False, "gil-deadlock-large" if n > CAPACITY else "gil-deadlock", "C++ code called from Python has written %d bytes in the last seconds and waits for the pipe to be emptied, by a thread that waits for the interpreter", n)
            sim.probe("writer waits for the pipe")
            e.n += 1  # the call in progress holds the pipe
            sim.block(lambda: len(q.buf) < CAPACITY or not q.readers, "room in the pipe")
            e.n -= 1
            if e.n == 0:
                q.writers -= 1
            check(q.readers > 0, "sigpipe", "the pipe is closed while something is written: the program is killed by SIGPIPE")
            room = CAPACITY - len(q.buf)
        x = b[:room]
        q.buf += x
        w.into += x
        w.recent.append((sim.now, len(x)))
        b = b[room:]


def background(sim):
    g, w = Rng(mix(sim.plan.seed, 8)), sim.w
    while not sim.w.over:
        due = sim.now + 1000000 * g.pick([100, 300, 700, 1000])
        w.nudge = False
        sim.at(due - sim.now, lambda: None)
        sim.block(lambda: sim.now >= due or w.nudge, "its next output")  # often just when the pipe has been found empty
        cpp_write(sim, text(g.below(1 << 30), g.pick([1, 10, 500, 2000]), 0), False, True)


def delivered(sim, what, final):
    """compares the screen with what was written in this session; final: everything must be there"""
    w = sim.w
    s = "".join(w.screen.text)
    b = bytes(w.into)
    try:
        want, strict = b.decode(), True
    except UnicodeDecodeError:
        want, strict = ascii_of(b.decode("ascii", "ignore")), False
        s = ascii_of(s)
    if w.screen.failed:  # parts which the screen refused may be missing
        sim.probe("screen failed")
        i = 0
        for c in s:
            i = want.find(c, i)
            check(i >= 0, "invented", "%s: the screen shows something never written", what)
            i += 1
        if len(s) < len(want):
            lost = sum(map(len, w.screen.failed))
            check(not final or len(want) - len(s) <= lost or not strict, "lost", "%s: %d characters are missing, the screen refused %d", what, len(want) - len(s), lost)
    elif final:
        check(s == want, "lost" if len(s) < len(want) else "delivery", "%s: %d characters were written to the redirected output, the screen shows %d%s", what, len(want), len(s), "" if len(s) != len(want) else ", not the same ones")
    else:
        check(want.startswith(s), "delivery", "%s: the screen shows something else than what was written", what)


def main_thread(sim, p):
    w = sim.w
    if any(n == "capture" for _, n, _ in sim.plan.ops):
        return captures(sim, p)
    r = p.load("triqs.utility.redirect")
    trace_lines(sim)
    term = w.fds.get(1)
    base = sorted(w.fds.t)
    on = False
    freeze = [a[0] for k, a in sim.plan.faults if k == "freeze"]
    for i, (_, name, a) in enumerate(sim.plan.ops):
        sim.trace("op %d %s %r", i, name, a)
        sim.probe("op " + name)
        if freeze and i == len(sim.plan.ops) // 2:
            sim.fired("program frozen")
            sim.now += freeze[0] * 1000000
            w.recent = [(t + freeze[0] * 1000000, k) for t, k in w.recent]
        if name == "start":
            nf = sum(w_ for k, w_ in sim.counters.items() if k in ("fault no file descriptor left", "fault no thread"))
            if on:
                w.screen.aside = []
            try:
                r.start_redirect()
            except Exception as e:
                now = sum(w_ for k, w_ in sim.counters.items() if k in ("fault no file descriptor left", "fault no thread"))
                check(now > nf, "start", "op %d: start_redirect() raises %s: %s", i, type(e).__name__, e)
                sim.probe("start failed")
                w.into, w.lost, w.screen.text, w.screen.failed = bytearray(), 0, [], []  # what a C++ thread wrote meanwhile
                check(w.fds.get(1) is term, "start-failed", "op %d: the redirection failed, but the C++ output does not go to the terminal any more", i)
                check(sorted(w.fds.t) == base, "leak", "op %d: file descriptors %s are left open by a failed start", i, sorted(set(w.fds.t) - set(base)))
                continue
            finally:
                w.screen.aside = None
            on = True
            check(w.fds.get(1) is not term, "started", "op %d: start_redirect() has returned, and the C++ output still goes to the terminal", i)
        elif name == "stop":
            if not on:
                r.stop_redirect()
                check(w.fds.get(1) is term, "stopped", "op %d: the C++ output does not go to the terminal", i)
                continue
            t0 = sim.now
            r.stop_redirect()
            on = False
            after_stop(sim, term, base, "op %d: after stop_redirect()" % i)
            check(sim.now - t0 < 30 * SEC, "slow-stop", "op %d: stop_redirect() takes %d s", i, (sim.now - t0) // SEC)
        elif name == "write":
            v, gil, n, kind = a
            b = text(v, max(0, n), kind)
            before = len(w.fds.term)
            cpp_write(sim, b, gil)
            if on:
                check(w.fds.get(1) is not term, "started", "op %d: the C++ output goes to the terminal during the redirection", i)
                delivered(sim, "op %d" % i, False)
            else:
                check(bytes(w.fds.term).find(b, before) >= 0 or not b, "terminal", "op %d: the C++ output without redirection does not reach the terminal", i)
            sim.state(3, on, gil, n, kind, len(w.threads))
        elif name == "wait":
            if a[0] >= 30000 and on:
                c, n0 = sim.cfg["background"], len(w.into)
                text0 = bytes(w.into)
                p.mods["time"].sleep(a[0] * 1e-3)
                s = "".join(w.screen.text)
                if not w.screen.failed:
                    d = text0.decode("ascii", "ignore")
                    check(len(ascii_of(s)) >= len(d), "late", "op %d: after %d s, only %d of %d characters have been shown", i, a[0] // 1000, len(ascii_of(s)), len(d))
            else:
                p.mods["time"].sleep(max(0, a[0]) * 1e-3)
            if on:
                delivered(sim, "op %d" % i, False)
    # the end of the program
    if on and sim.cfg["end"]:
        r.stop_redirect()
        after_stop(sim, term, base, "at the end: after stop_redirect()")
        on = False
    for t in w.threads:
        if not t.daemon:
            due = sim.now + 100 * SEC
            sim.at(100 * SEC, lambda: None)
            sim.block(lambda: t._t.done or sim.now >= due, "the end of the threads")
            check(t._t.done, "no-exit", "the program cannot end: it waits for the thread of the redirection")
    for fn, x, k in reversed(w.atexit):
        fn(*x, **k)
    if on:
        sim.probe("ends while redirected")
        if w.fds.get(1) is term:
            after_stop(sim, term, base, "at the end of the program")
        else:
            delivered(sim, "at the end of the program", True)
    w.over = True


def after_stop(sim, term, base, what):
    w = sim.w
    n = len(w.into)
    check(w.fds.get(1) is term, "stopped", "%s the C++ output does not go to the terminal", what)
    check(not w.lost, "lost", "%s %d bytes in the pipe are thrown away", what, w.lost)
    delivered(sim, what, True)
    check(sorted(w.fds.t) == base, "leak", "%s the file descriptors %s are left open", what, sorted(set(w.fds.t) - set(base)))
    w.into = bytearray()
    w.screen.text, w.screen.failed = [], []
    sim.probe("sessions")


class Boom(Exception):
    pass


def captures(sim, p):
    C = p.load("triqs.utility").capture_stdout
    trace_lines(sim)
    for i, (_, name, a) in enumerate(sim.plan.ops):
        if name != "capture":
            continue
        v, depth, how = a
        g = Rng(mix(v))
        sim.probe("op capture")
        outer = p.sys.stdout

        def lines(k):
            return ["%d line %d of %d" % (i, j, k) for j in range(Rng(mix(v, k)).below(4))]

        def nest(k):
            before = p.sys.stdout
            c = C()
            try:
                with c as x:
                    check(p.sys.stdout is not before, "capture", "op %d: nothing is captured", i)
                    check(x is c, "capture", "op %d: the with statement gives something else", i)
                    for s in lines(k):
                        p._print(s)
                    if k < depth:
                        nest(k + 1)
                    for s in lines(k + 10):
                        p._print(s)
                    if how == 2 and k == depth:
                        sim.fired("exception in a captured block")
                        raise Boom()
            except Boom:
                check(how == 2, "capture", "?")
                if k > 1 and v % 2:
                    check(p.sys.stdout is before, "restored", "op %d: sys.stdout is not restored after an exception", i)
                    check(list(c) == want(k), "captured", "op %d: captured %r, expected %r", i, list(c), want(k))
                    raise
            check(p.sys.stdout is before, "restored", "op %d: sys.stdout is not restored", i)
            check(list(c) == want(k), "captured", "op %d: captured %r, expected %r", i, list(c), want(k))

        def want(k):
            return lines(k) + ([] if how == 2 and v % 2 and k < depth else lines(k + 10))
        n = len(w_text(sim))
        try:
            nest(1)
        except Boom:
            check(False, "capture", "op %d: an exception escapes", i)
        check(p.sys.stdout is outer, "restored", "op %d: sys.stdout is not restored at the end", i)
        check(len(w_text(sim)) == n, "captured", "op %d: captured output reaches the screen", i)
        sim.state(4, depth, how)


def w_text(sim):
    return "".join(sim.w.screen.text)


def finish(sim):
    pass


if __name__ == "__main__":
    pysim.main(globals())
