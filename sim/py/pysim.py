"""Deterministic simulator for the Python part: simulated processes (MPI ranks), threads and forked children on one seeded
scheduler with simulated time, messages, file descriptors and files.

A workload script defines generate(rng, plan), setup(), rank_main(r) and finish() and calls pysim.main(globals()).
Every rank gets its own copies of the modules of the code under test (their globals are per process); the modules they import
(mpi4py, os, time, threading, ...) are the simulator's. Only one task runs at a time; it hands over only in calls of the
simulator; the scheduler's decisions come from the plan's seed, so a plan is one exactly repeatable execution.
"""
import argparse, builtins, hashlib, heapq, io, json, os, pickle, random, re, signal, sys, threading, time, traceback, types

M64 = (1 << 64) - 1


def mix(z, *more):
    z = (z + 0x9e3779b97f4a7c15) & M64
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    z ^= z >> 31
    for m in more:
        z = mix(z ^ ((int(m) * 0xda942042e4dd58b5 + 0x1234567) & M64))
    return z


class Rng:
    def __init__(self, seed):
        self.s = mix(seed & M64)

    def next(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & M64
        self.s = mix(self.s)
        return self.s

    def below(self, n):
        return self.next() % n if n > 0 else 0

    def range(self, a, b):
        return a + self.below(b - a + 1)

    def uniform(self):
        return (self.next() >> 11) * (1.0 / 9007199254740992.0)

    def chance(self, p):
        return self.uniform() < p

    def pick(self, l):
        return l[self.below(len(l))]


# ------------------------------------------------------------------------------------------------ plans
class Plan:
    def __init__(self, workload="", seed=0):
        self.workload, self.seed, self.cfg, self.ops, self.faults = workload, seed, {}, [], []
        self.prng, self.permil, self.dec = True, 500, {}

    def op(self, rank, name, *a):
        self.ops.append((rank, name, [int(x) for x in a]))

    def fault(self, kind, *a):
        self.faults.append((kind, [int(x) for x in a]))

    def text(self):
        o = ["simplan 1", "workload " + self.workload, "seed %d" % self.seed]
        o += ["cfg %s %d" % (k, v) for k, v in sorted(self.cfg.items())]
        o += ["op %d %s %s" % (r, n, " ".join(map(str, a))) for r, n, a in self.ops]
        o += ["fault %s %s" % (k, " ".join(map(str, a))) for k, a in self.faults]
        o += ["sched prng %d" % self.permil] if self.prng else ["sched list"]
        o += ["dec %s %d" % (k, v) for k, v in self.dec.items()]
        return "\n".join(x.rstrip() for x in o) + "\n"

    @staticmethod
    def parse(text):
        p = Plan()
        for ln in text.splitlines():
            w = ln.split()
            if not w or ln.startswith("#"):
                continue
            if w[0] == "workload":
                p.workload = w[1]
            elif w[0] == "seed":
                p.seed = int(w[1])
            elif w[0] == "cfg":
                p.cfg[w[1]] = int(w[2])
            elif w[0] == "op":
                p.ops.append((int(w[1]), w[2], [int(x) for x in w[3:]]))
            elif w[0] == "fault":
                p.faults.append((w[1], [int(x) for x in w[2:]]))
            elif w[0] == "sched":
                p.prng = w[1] == "prng"
                if p.prng and len(w) > 2:
                    p.permil = int(w[2])
            elif w[0] == "dec":
                p.dec[w[1]] = int(w[2])
        return p


# ------------------------------------------------------------------------------------------------ one run
class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls, self.msg = cls, msg


class Killed(BaseException):
    """the run is over (or this process was aborted): unwinds the task, whatever the code under test catches"""


class Harness(Exception):
    pass


MAXSTEPS = 200000


class Task:
    def __init__(self, sim, name, rank, fn):
        self.sim, self.name, self.rank, self.fn = sim, name, rank, fn
        self.go = threading.Lock()
        self.go.acquire()
        self.ready, self.what, self.done, self.started, self.kill = None, "", False, False, False
        self.exc, self.result = None, None
        self.daemon, self.polls = False, 0
        self.thread = threading.Thread(target=self._body, daemon=True)

    def _body(self):
        self.go.acquire()
        try:
            if not self.kill:
                self.result = self.fn()
        except Killed:
            pass
        except Violation as v:
            self.sim.report(v.cls, v.msg)
        except BaseException as e:  # noqa
            self.exc = e
            try:
                self.sim.on_exception(self, e)
            except Violation as v:
                self.sim.report(v.cls, v.msg)
        if self.sim.in_child:
            self.sim.child_exit(255)
        self.done = True
        if self.sim.running:
            self.sim.hand_over(self)
        else:
            self.sim.main_lock.release()


class Sim:
    def __init__(self, plan, log=False):
        self.plan, self.want_log, self.lines = plan, log, []
        self.cfg = plan.cfg
        self.rng = Rng(mix(plan.seed, 77))
        self.nranks = plan.cfg.get("ranks", 1)
        self.now = 0
        self.tasks, self.queue, self.events, self.evseq = [], [], [], 0
        self.current = None
        self.main_lock = threading.Lock()
        self.main_lock.acquire()
        self.status = None
        self.hash = hashlib.blake2b(digest_size=8)
        self.sched = hashlib.blake2b(digest_size=8)
        self.steps = 0
        self.taken, self.ndec = {}, {}
        self.counters = {}
        self.states = set()
        self.in_child, self.effects, self.child_wr = False, None, None
        self.running = False
        self.aborting = None
        self.children, self.reaped, self.nchild = {}, [], 0
        self.world = types.SimpleNamespace()
        self.fs = {}
        self.net = Net(self)

    # ---- bookkeeping
    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def probe(self, k):
        self.count("probe " + k)

    def fired(self, k):
        if self.in_child:
            self.effects.append(("count", "fault " + k))
        self.count("fault " + k)

    def trace(self, fmt, *a):
        s = fmt % a if a else fmt
        if self.in_child:
            self.effects.append(("trace", s))
            return
        ln = "[%d %s] %s" % (self.now, self.current.name if self.current else "-", s)
        self.hash.update(ln.encode() + b"\n")
        if self.want_log:
            self.lines.append(ln)

    def state(self, *a):
        self.states.add(mix(*[int(x) & M64 for x in a]))

    def report(self, cls, msg):
        if self.in_child:
            self.effects.append(("violation", (cls, msg)))
            return
        if self.status is None:
            self.status = (1, cls, msg)
            self.trace("VIOLATION %s: %s", cls, msg)

    def violation(self, cls, fmt, *a):
        raise Violation(cls, fmt % a if a else fmt)

    def on_exception(self, task, e):  # the workload may replace it
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
        self.report("exception", "%s raises %s: %s (%s)" % (task.name, type(e).__name__, re.sub(r" at 0x[0-9a-f]+", "", str(e))[:200], where))

    # ---- decisions
    def decide(self, kind, n):
        if n <= 1:
            return 0
        i = self.ndec.get(kind, 0)
        self.ndec[kind] = i + 1
        key = "%s.%d" % (kind, i)
        if self.plan.prng:
            v = self.rng.below(n) if self.rng.below(1000) < self.plan.permil else 0
        else:
            v = self.plan.dec.get(key, 0) % n
        if v:
            self.taken[key] = v
        return v

    def delay(self, kind):  # a message delay in ns
        b = (1000, 5000, 50000, 2000000, 300000000)
        return b[self.decide(kind, len(b))]

    # ---- tasks and time
    def spawn(self, name, rank, fn, daemon=False):
        t = Task(self, name, rank, fn)
        t.daemon = daemon
        self.tasks.append(t)
        self.queue.append(t)
        if self.running:
            t.thread.start()
        return t

    def at(self, dt, fn):
        self.evseq += 1
        heapq.heappush(self.events, (self.now + max(0, int(dt)), self.evseq, fn))

    def _switch(self):  # hand over to the scheduler and wait for our turn
        me = self.current
        if not self.running:
            self.main_lock.release()
        elif self.hand_over(me):
            return
        me.go.acquire()
        if me.kill:
            raise Killed()

    def yield_(self, ns=1000):
        """a scheduling point: others may run; costs simulated time"""
        if self.in_child:
            raise Harness("scheduling in a forked child")
        me = self.current
        if me.kill:
            raise Killed()
        self.now += ns
        self.queue.append(me)
        self._switch()

    def poll(self):
        """an unsuccessful look at something costs the more time the more often it is repeated"""
        me = self.current
        me.polls += 1
        self.yield_(min(1000 << min(me.polls, 14), 10000000))

    def block(self, ready, what):
        if self.in_child:
            raise Harness("blocking in a forked child: " + what)
        me = self.current
        if me.kill:
            raise Killed()
        me.ready, me.what = ready, what
        self._switch()

    def sleep(self, ns):
        due = self.now + max(0, int(ns))
        self.current.polls = 0
        self.at(ns, lambda: None)
        self.block(lambda: self.now >= due, "sleep")

    def abort(self, task, why):
        """the whole job dies (an uncaught error of one process, MPI_Abort)"""
        self.aborting = self.aborting or why

    def advance(self):
        """who goes on? The task, or None at the end of the run. Runs on the thread of whoever handed over."""
        while self.status is None and self.aborting is None:
            for t in self.tasks:
                if t.ready is not None and not t.done and t.ready():
                    t.ready = None
                    self.queue.append(t)
            if self.events and self.events[0][0] <= self.now:
                heapq.heappop(self.events)[2]()
                continue
            if not self.queue:
                alive = [t for t in self.tasks if not t.done]
                if not [t for t in alive if not t.daemon]:
                    return None
                if self.events:
                    self.now = max(self.now, self.events[0][0])
                    continue
                self.report("deadlock", "nothing can happen any more: " + "; ".join("%s waits for %s" % (t.name, t.what) for t in alive))
                return None
            self.steps += 1
            if self.steps > self.max_steps:
                self.report("no-progress", "no end after %d steps: %s" % (self.max_steps, "; ".join(t.name + " " + (t.what if t.ready else "running") for t in self.tasks if not t.done)))
                return None
            t = self.queue.pop(self.decide("run", len(self.queue)))
            self.sched.update(t.name.encode())
            self.current = t
            return t
        return None

    def hand_over(self, me):
        t = self.advance()
        if t is me:
            return True
        (t.go if t else self.main_lock).release()
        return False

    def run(self):
        for t in self.tasks:
            t.thread.start()
        self.running = True
        if not self.hand_over(None):
            self.main_lock.acquire()
        # unwind whoever is left
        self.running = False
        for t in self.tasks:
            if not t.done:
                t.kill = True
                for _ in range(1000):
                    self.current = t
                    t.go.release()
                    self.main_lock.acquire()
                    if t.done:
                        break
        for t in self.tasks:
            t.thread.join()
        self.current = None

    # ---- forked children: a real fork, run to its end at once; its effects on the world are applied by the parent when the
    # scheduler says so
    def fork(self):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            self.in_child, self.effects, self.child_wr, self.io_count = True, [], w, 0
            return 0, None
        os.close(w)
        buf = b""
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
        os.close(r)
        os.waitpid(pid, 0)
        if not buf:
            raise Harness("a forked child vanished")
        eff = pickle.loads(buf)
        for k, v in eff:
            if k == "violation":
                raise Violation(*v)
            if k == "count":
                self.count(v)
        return pid, [(k, v) for k, v in eff if k not in ("violation", "count")]

    def child_exit(self, code):
        self.effects.append(("exit", code))
        data = pickle.dumps(self.effects)
        while data:
            data = data[os.write(self.child_wr, data):]
        os.close(self.child_wr)
        os._exit(0)


# ------------------------------------------------------------------------------------------------ messages
class Net:
    """point-to-point messages and collectives; every object is pickled on the way, as mpi4py does"""

    def __init__(self, sim):
        self.sim = sim
        self.box = {}      # (dst) -> list of delivered messages
        self.flight = {}   # (src, dst) -> messages in flight, in order
        self.colls = {}
        self.seq = {}
        self.rendezvous = False

    def post(self, src, dst, tag, data, done):
        m = dict(src=src, dst=dst, tag=tag, data=data, done=done, arrived=False)
        f = self.flight.setdefault((src, dst), [])
        f.append(m)
        s = self.sim

        def arrive():
            m["arrived"] = True
            while f and f[0]["arrived"]:  # no overtaking between two processes
                self.box.setdefault(dst, []).append(f.pop(0))
        s.at(s.delay("msg"), arrive)
        s.count("probe messages")

    def match(self, me, src, tag):
        for m in self.box.get(me, []):
            if (src is None or m["src"] == src) and (tag is None or m["tag"] == tag):
                return m
        return None

    def take(self, me, m):
        self.box[me].remove(m)
        m["done"][0] = True

    def coll(self, me, kind, sig, data, need):
        """joins the next collective; returns it when what `need` asks for is there: 'all' or a root"""
        s = self.sim
        k = self.seq.get(me, 0)
        self.seq[me] = k + 1
        c = self.colls.setdefault(k, dict(kind=kind, sig=sig, data={}))
        if (c["kind"], c["sig"]) != (kind, sig):
            raise Violation("mismatched-collective", "rank %d calls %s%s where another rank called %s%s" % (me, kind, sig, c["kind"], c["sig"]))

        def arrive():
            c["data"][me] = data
        s.at(s.delay("coll"), arrive)
        n = s.nranks
        return c, (lambda: len(c["data"]) == n) if need == "all" else (lambda: need in c["data"]) if need is not None else (lambda: True)


class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, a, b):
        return self.f(a, b)


class Request:
    def __init__(self, sim, test):
        self.sim, self._t, self._r = sim, test, None

    def test(self, status=None):
        if self._r is None:
            self.sim.poll()
            self._r = self._t(status)
            if self._r is not None:
                self.sim.current.polls = 0
        return self._r if self._r is not None else (False, None)

    def Test(self, status=None):
        return self.test(status)[0]

    def wait(self, status=None):
        while True:
            f, m = self.test(status)
            if f:
                return m
            self.sim.block(lambda: self._ready(), "a request")

    def _ready(self):
        self._r = self._r or self._t(None)
        return self._r is not None
    Wait = wait


class Status:
    source = tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class OwnPickler(pickle.Pickler):
    """classes and functions of a process's own modules go by name, and nothing else does: as in a real process"""

    def __init__(self, f, proc):
        pickle.Pickler.__init__(self, f)
        self.p = proc

    def persistent_id(self, x):
        if isinstance(x, (type, types.FunctionType)):
            m = getattr(x, "__module__", None)
            if m in self.p.mods:
                y = self.p.mods[m]
                for a in x.__qualname__.split("."):
                    y = getattr(y, a, None)
                if y is not x:
                    raise pickle.PicklingError("Can't pickle %r: not found as %s.%s" % (x, m, x.__qualname__))
                return (m, x.__qualname__)
        return None


class OwnUnpickler(pickle.Unpickler):
    def __init__(self, f, proc):
        pickle.Unpickler.__init__(self, f)
        self.p = proc

    def persistent_load(self, pid):
        y = self.p.load(pid[0])
        for a in pid[1].split("."):
            y = getattr(y, a)
        return y


class Intracomm:
    proc = None        # whose classes are pickled by name
    own_root = False   # the root of a broadcast gets its own object back

    def __init__(self, sim, rank):
        self._s, self._r = sim, rank

    def _dumps(self, x):
        if self.proc is None:
            return pickle.dumps(x)
        f = io.BytesIO()
        OwnPickler(f, self.proc).dump(x)
        return f.getvalue()

    def _loads(self, b):
        return pickle.loads(b) if self.proc is None else OwnUnpickler(io.BytesIO(b), self.proc).load()

    def __reduce__(self):
        raise TypeError("cannot pickle a communicator")

    def Get_rank(self):
        return self._r

    def Get_size(self):
        return self._s.nranks
    rank = property(Get_rank)
    size = property(Get_size)

    def _chk(self):
        if self._s.in_child:
            raise Violation("mpi-in-child", "a forked child of rank %d uses MPI" % self._r)

    def send(self, obj, dest, tag=0):
        self._chk()
        s = self._s
        if not 0 <= dest < s.nranks:
            raise ValueError("MPI_ERR_RANK: invalid rank %r" % (dest,))
        done = [False]
        s.net.post(self._r, dest, tag, self._dumps(obj), done)
        s.yield_()
        if s.net.rendezvous and not done[0]:
            s.fired("rendezvous")
            s.block(lambda: done[0], "rank %d receiving its message" % dest)
    ssend = send

    def isend(self, obj, dest, tag=0):
        self._chk()
        s = self._s
        done = [False]
        s.net.post(self._r, dest, tag, self._dumps(obj), done)
        return Request(s, lambda st: (True, None) if done[0] or not s.net.rendezvous else None)

    def _got(self, m, status):
        self._s.net.take(self._r, m)
        if status is not None:
            status.source, status.tag = m["src"], m["tag"]
        return self._loads(m["data"])

    def recv(self, buf=None, source=None, tag=None, status=None):
        self._chk()
        s = self._s
        source = None if source is None or source < 0 else source
        tag = None if tag is None or tag < 0 else tag
        s.yield_()
        s.block(lambda: s.net.match(self._r, source, tag), "a message from rank %s" % ("any" if source is None else source))
        return self._got(s.net.match(self._r, source, tag), status)

    def irecv(self, buf=None, source=None, tag=None):
        self._chk()
        s = self._s
        source = None if source is None or source < 0 else source
        tag = None if tag is None or tag < 0 else tag

        def t(status):
            m = s.net.match(self._r, source, tag)
            return None if m is None else (True, self._got(m, status))
        return Request(s, t)

    def iprobe(self, source=None, tag=None, status=None):
        self._chk()
        self._s.poll()
        source = None if source is None or source < 0 else source
        m = self._s.net.match(self._r, source, None if tag is None or tag < 0 else tag)
        if m:
            self._s.current.polls = 0
        if m and status is not None:
            status.source, status.tag = m["src"], m["tag"]
        return m is not None
    Iprobe = iprobe

    def _coll(self, kind, sig, obj, need):
        self._chk()
        s = self._s
        c, ready = s.net.coll(self._r, kind, sig, self._dumps(obj), need)
        s.yield_()
        s.block(ready, kind)
        return c

    def barrier(self):
        self._coll("barrier", (), None, "all")
    Barrier = barrier

    def Ibarrier(self):
        self._chk()
        c, ready = self._s.net.coll(self._r, "barrier", (), None, "all")
        return Request(self._s, lambda st: (True, None) if ready() else None)
    ibarrier = Ibarrier

    def bcast(self, obj, root=0):
        x = self._loads(self._coll("bcast", (root,), obj if self._r == root else None, root)["data"][root])
        return obj if self.own_root and self._r == root else x

    def _reduced(self, c, op):
        s = self._s
        v = [self._loads(c["data"][r]) for r in range(s.nranks)]
        g = Rng(mix(s.plan.seed, 5, c.setdefault("assoc", len(s.net.colls))))
        while len(v) > 1:  # any association of the operands, in rank order
            i = g.below(len(v) - 1)
            v[i:i + 2] = [op(v[i], v[i + 1])]
        return v[0]

    def allreduce(self, sendobj, op=None):
        op = op or SUM
        return self._reduced(self._coll("allreduce", (getattr(op, "name", "?"),), sendobj, "all"), op)

    def reduce(self, sendobj, op=None, root=0):
        op = op or SUM
        c = self._coll("reduce", (getattr(op, "name", "?"), root), sendobj, "all" if self._r == root else None)
        return self._reduced(c, op) if self._r == root else None

    def gather(self, sendobj, root=0):
        c = self._coll("gather", (root,), sendobj, "all" if self._r == root else None)
        return [self._loads(c["data"][r]) for r in range(self._s.nranks)] if self._r == root else None

    def allgather(self, sendobj):
        c = self._coll("allgather", (), sendobj, "all")
        return [self._loads(c["data"][r]) for r in range(self._s.nranks)]

    def scatter(self, sendobj, root=0):
        return self._loads(self._coll("scatter", (root,), sendobj, root)["data"][root])[self._r]

    def alltoall(self, sendobj):
        c = self._coll("alltoall", (), sendobj, "all")
        return [self._loads(c["data"][r])[self._r] for r in range(self._s.nranks)]

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=None, recvtag=None, status=None):
        q = self.isend(sendobj, dest, sendtag)
        x = self.recv(None, source, recvtag, status)
        q.wait()
        return x

    def probe(self, source=None, tag=None, status=None):
        self._chk()
        s = self._s
        source = None if source is None or source < 0 else source
        tag = None if tag is None or tag < 0 else tag
        s.yield_()
        s.block(lambda: s.net.match(self._r, source, tag), "a message from rank %s" % ("any" if source is None else source))
        return self.iprobe(source, tag, status)
    Probe = probe

    # buffers
    def Bcast(self, buf, root=0):
        x = self.bcast(buf, root)
        if self._r != root:
            buf[...] = x

    def Allreduce(self, sendbuf, recvbuf, op=None):
        recvbuf[...] = self.allreduce(recvbuf if sendbuf is IN_PLACE else sendbuf, op)

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        x = self.reduce(recvbuf if sendbuf is IN_PLACE else sendbuf, op, root)
        if self._r == root:
            recvbuf[...] = x

    def Abort(self, code=0):
        self._s.abort(self._s.current, "MPI_Abort(%d) by rank %d" % (code, self._r))
        self._s.current.kill = True
        raise Killed()


SUM = Op("SUM", lambda a, b: a + b)
IN_PLACE = -1


def make_mpi(sim, rank):
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.Intracomm = MPI.Comm = Intracomm
    MPI.COMM_WORLD = Intracomm(sim, rank)
    MPI.SUM = SUM
    MPI.MAX = Op("MAX", max)
    MPI.MIN = Op("MIN", min)
    MPI.PROD = Op("PROD", lambda a, b: a * b)
    MPI.IN_PLACE = IN_PLACE
    MPI.ANY_SOURCE = MPI.ANY_TAG = -1
    MPI.Status, MPI.Request = Status, Request
    m = types.ModuleType("mpi4py")
    m.MPI = MPI
    return m, MPI


# ------------------------------------------------------------------------------------------------ a process: its own modules
class Process:
    """per-rank copies of the modules of the code under test; `fake` are the modules the simulator provides"""

    def __init__(self, sim, rank, roots, fake):
        self.sim, self.rank, self.roots = sim, rank, roots
        self.mods = dict(fake)
        self.builtins = dict(builtins.__dict__)
        self.builtins["__import__"] = self._import

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + "." + name if name else pkg
        mine = name in self.mods or self.find(name)
        if not mine:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        m = self.load(name)
        if not fromlist:
            top = name.partition(".")[0]
            return self.load(top) if not level else m
        for f in fromlist:
            if f == "*":
                for g in getattr(m, "__all__", ()):
                    if not hasattr(m, g) and (name + "." + g in self.mods or self.find(name + "." + g)):
                        self.load(name + "." + g)
            elif not hasattr(m, f) and (name + "." + f in self.mods or self.find(name + "." + f)):
                self.load(name + "." + f)
        return m

    def find(self, name):
        for root in self.roots:
            p = os.path.join(root, *name.split("."))
            for q, pk in ((p + ".py", False), (os.path.join(p, "__init__.py"), True), (p + ".py.in", False)):
                if os.path.exists(q):
                    return q, pk
            if os.path.isdir(p):
                return p, True
        return None

    _code = {}

    def load(self, name):
        parent, _, leaf = name.rpartition(".")
        if name in self.mods:
            if parent in self.mods and not hasattr(self.mods[parent], leaf):
                setattr(self.mods[parent], leaf, self.mods[name])
            return self.mods[name]
        if parent:
            self.load(parent)
        q = self.find(name)
        if q is None:
            raise ModuleNotFoundError("No module named '%s'" % name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = q[0]
        m.__package__ = name if q[1] else parent
        if q[1]:
            m.__path__ = []
        self.mods[name] = m
        if os.path.isfile(q[0]):
            if q[0] not in Process._code:
                with open(q[0]) as f:
                    Process._code[q[0]] = compile(f.read(), q[0], "exec")
            exec(Process._code[q[0]], m.__dict__)
        if parent:
            setattr(self.mods[parent], name.rpartition(".")[2], m)
        return m


# ------------------------------------------------------------------------------------------------ simulated os, time, files
class SimFile:
    """a file opened by a simulated process"""

    def __init__(self, proc, path, mode):
        self.p, self.path, self.mode = proc, path, mode
        s = proc.sim
        self.bin = "b" in mode
        fs = proc.fs()
        if "r" in mode and path not in fs:
            raise FileNotFoundError(2, "No such file or directory", path)
        s.io_fault("open " + path)
        if "w" in mode:
            proc.put(path, b"")
        self.pos = 0
        if "a" in mode:
            self.pos = len(fs.get(path, b""))
            if path not in fs:
                proc.put(path, b"")
        self.closed = False

    def write(self, x):
        if self.bin and isinstance(x, str) or not self.bin and not isinstance(x, str):
            raise TypeError("write() argument must be %s, not %s" % ("bytes" if self.bin else "str", type(x).__name__))
        b = x if self.bin else x.encode()
        b = bytes(b)
        s = self.p.sim
        cut = s.io_fault("write " + self.path, len(b))
        old = self.p.fs().get(self.path, b"")
        self.p.put(self.path, old[:self.pos] + b[:cut] + old[self.pos + cut:])
        self.pos += cut
        if cut < len(b):
            s.fired("short write, disk full")
            raise OSError(28, "No space left on device")
        return len(x)

    def read(self, n=-1):
        self.p.sim.io_fault("read " + self.path)
        d = self.p.fs()[self.path][self.pos:]
        d = d if n is None or n < 0 else d[:n]
        self.pos += len(d)
        return d if self.bin else d.decode()

    def readline(self):
        d = self.p.fs()[self.path][self.pos:]
        i = d.find(b"\n")
        d = d if i < 0 else d[:i + 1]
        self.pos += len(d)
        return d if self.bin else d.decode()

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Out:
    """stdout or stderr of a simulated process"""

    def __init__(self, proc, name):
        self.p, self.name, self.text = proc, name, []

    def write(self, x):
        if not isinstance(x, str):
            raise TypeError("write() argument must be str, not %s" % type(x).__name__)
        if self.p.sim.in_child:
            self.p.sim.effects.append(("out", (self.p.rank, self.name, x)))
        self.text.append(x)
        return len(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def value(self):
        return "".join(self.text)


class SimProc(Process):
    """a process with standard streams, clock, files and host of its own"""

    def __init__(self, sim, rank, roots, fake=None, env=None):
        m4, MPI = make_mpi(sim, rank)
        f = {"mpi4py": m4, "mpi4py.MPI": MPI}
        Process.__init__(self, sim, rank, roots, f)
        self.MPI = MPI
        y = types.ModuleType("sys")
        y.__dict__.update({k: v for k, v in sys.__dict__.items() if not k.startswith("_")})
        y.stdout, y.stderr, y.argv = Out(self, "stdout"), Out(self, "stderr"), ["prog"]
        y.__stdout__, y.__stderr__ = y.stdout, y.stderr
        self.sys = y
        t = types.ModuleType("time")
        t.__dict__.update({k: v for k, v in time.__dict__.items() if not k.startswith("_")})
        t.time = t.monotonic = t.perf_counter = lambda: sim.now * 1e-9

        def sleep(x):
            if x < 0:
                raise ValueError("sleep length must be non-negative")
            if sim.in_child:
                sim.effects.append(("sleep", int(x * 1e9)))
            else:
                sim.sleep(x * 1e9)
        t.sleep = sleep
        d = types.ModuleType("datetime")

        class datetime:
            @staticmethod
            def now():
                return "simulated time %d ns" % sim.now
        d.datetime = datetime
        k = types.ModuleType("socket")
        k.gethostname = lambda: "host%d" % rank
        o = types.ModuleType("os")
        o.__dict__.update({k: v for k, v in os.__dict__.items() if k in ("path", "sep", "linesep", "name", "O_NONBLOCK", "WNOHANG", "WIFEXITED", "WEXITSTATUS", "WIFSIGNALED", "WTERMSIG", "error", "fspath", "SEEK_SET")})
        o.environ = dict(env or {})
        o.getpid = lambda: 1000 + 100 * rank
        o.fork, o.waitpid, o._exit = self._fork, self._waitpid, self._exit
        self.os = o
        b = types.ModuleType("traceback")
        b.__dict__.update({k: v for k, v in traceback.__dict__.items() if not k.startswith("_")})
        b.print_exc = lambda *a, **k: y.stderr.write("exception")
        self.mods.update(traceback=b, sys=y, time=t, datetime=d, socket=k, os=o)
        b = self.builtins
        b["print"] = self._print
        b["open"] = lambda path, mode="r", *a, **k: SimFile(self, path, mode)
        self.mods.update(fake or {})

    def _print(self, *a, sep=" ", end="\n", file=None, flush=False):
        (file or self.sys.stdout).write(sep.join(map(str, a)) + end)

    # ---- child processes
    def _fork(self):
        """a real fork; the child runs at once to its end, what it did to the world happens here in simulated time"""
        sim = self.sim
        if sim.in_child:
            raise Harness("a child forks")
        sim.yield_()
        sim.nchild += 1
        pid, eff = sim.fork()
        if pid == 0:
            return 0
        sim.next_pid = pid = getattr(sim, "next_pid", 4000) + 1
        k = sim.nchild
        c = dict(owner=self.rank, status=None, dead=False)
        sim.children[pid] = c
        t = 0
        for kind, v in eff:
            if kind == "sleep":
                t += v
                continue
            t += 1000 + sim.delay("child")
            sim.at(t, lambda kind=kind, v=v: self._effect(pid, c, kind, v))
        for f, a in sim.plan.faults:
            if f == "killchild" and a[0] == k:  # the number of the child, the moment in permil of its life
                sim.at(t * a[1] // 1000, lambda: self._effect(pid, c, "kill", 9))
        sim.probe("children")
        return pid

    def _effect(self, pid, c, kind, v):
        sim = self.sim
        if c["dead"]:
            return
        if kind == "exit" or kind == "kill":
            c["dead"], c["status"] = True, v if kind == "kill" else v << 8
            if kind == "kill":
                sim.fired("child killed")
                c["killed"] = True
        elif kind == "put":
            sim.fs[v[0]] = v[1]
        elif kind == "trace":
            sim.trace("child %d: %s", pid, v)
        elif kind != "out":
            sim.child_effect(pid, kind, v)

    def _waitpid(self, pid, options):
        sim = self.sim
        if sim.in_child:
            raise ChildProcessError(10, "No child processes")
        c = sim.children.get(pid)
        if c is None or c["owner"] != self.rank:
            raise ChildProcessError(10, "No child processes")
        if options & os.WNOHANG:
            sim.poll()
            if not c["dead"]:
                return 0, 0
            sim.current.polls = 0
        else:
            sim.block(lambda: c["dead"], "child %d" % pid)
        del sim.children[pid]
        sim.reaped.append((pid, c))
        return pid, c["status"]

    def _exit(self, code):
        if self.sim.in_child:
            self.sim.child_exit(code & 255)
        raise Violation("exit", "rank %d calls os._exit(%d)" % (self.rank, code))

    def fs(self):
        return self.sim.fs

    def put(self, path, data):
        self.sim.fs[path] = data
        if self.sim.in_child:
            self.sim.effects.append(("put", (path, data)))


# ------------------------------------------------------------------------------------------------ command line
def run_plan(wl, plan, log=False):
    s = Sim(plan, log)
    wl["SIM"] = s
    s.max_steps = wl.get("MAXSTEPS", MAXSTEPS)
    s.io_count = 0

    def io_fault(what, n=0):
        s.io_count += 1
        for k, a in plan.faults:
            if k == "io" and not s.in_child and a[0] == s.io_count or k == "cio" and s.in_child and a[2] == s.nchild and a[0] == s.io_count:
                if n and a[1] == 1:
                    return n // 2
                s.fired("disk error")
                raise OSError(5, "Input/output error")
        return n
    s.io_fault = io_fault
    out, err = sys.stdout, sys.stderr
    try:
        s.trace("ops %r faults %r cfg %r", plan.ops, plan.faults, sorted(plan.cfg.items()))
        wl["setup"](s)
        s.run()
        if s.status is None:
            try:
                wl["finish"](s)
            except Violation as v:
                s.report(v.cls, v.msg)
    except Violation as v:
        s.report(v.cls, v.msg)
    except Harness as e:
        s.status = (2, "harness", "harness: %s" % e)
    finally:
        sys.stdout, sys.stderr = out, err
    st = s.status or (0, "", "")
    s.count("probe ops planned", len(plan.ops))
    s.count("probe faults planned", len(plan.faults))
    return s, st


def main(wl):
    ap = argparse.ArgumentParser()
    ap.add_argument("--gen", type=int)
    ap.add_argument("--plan")
    ap.add_argument("--log", action="store_true")
    ap.add_argument("--batch", nargs=2, type=int)
    ap.add_argument("--limit", type=float, default=1e9)
    ap.add_argument("--out")
    ap.add_argument("--dup", type=int, default=0)
    ap.add_argument("--ignore", action="append", default=[])
    ap.add_argument("--cfg", action="append", default=[])
    a = ap.parse_args()
    threading.stack_size(512 * 1024)
    sys.setswitchinterval(10)
    import gc, warnings
    warnings.simplefilter("ignore")
    cfg = {k: int(v) for k, v in (c.split("=") for c in a.cfg)}

    def gen(seed):
        p = Plan(wl["NAME"], seed)
        p.cfg.update(cfg)
        g = Rng(mix(seed, 1))
        p.permil = g.pick([0, 100, 300, 500, 800, 1000])
        wl["generate"](g, p)
        return p
    if a.batch and "SIM_CPU" in os.environ:
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[int(os.environ["SIM_CPU"]) % len(cpus)]})
    if a.gen is not None:
        sys.stdout.write(gen(a.gen).text())
        return

    def result(s, st, log):
        r = dict(status=st[0], cls=st[1], msg=st[2], hash=s.hash.hexdigest(), sim_ns=s.now, sched=s.sched.hexdigest(), dec="\n".join("%s %d" % kv for kv in s.taken.items()))
        if log:
            r["log"] = "\n".join(s.lines)
        return r
    if a.plan:
        with open(a.plan) as f:
            p = Plan.parse(f.read())
        s, st = run_plan(wl, p, a.log)
        json.dump(result(s, st, a.log), sys.stdout)
        return
    t0 = time.time()
    o = dict(runs=0, dup=0, seconds=0, sim_seconds=0.0, sched_steps=0, instructions_stepped=0, sample="", counters={}, violations=[], sched_hashes=[], trace_hashes=[], state_hashes=[])
    H, S, T = set(), set(), set()
    for i in range(a.batch[1]):
        if time.time() - t0 > a.limit:
            break
        seed = a.batch[0] + i
        p = gen(seed)
        s, st = run_plan(wl, p)
        o["runs"] += 1
        if i % 512 == 0:
            gc.collect()
        for k, v in s.counters.items():
            o["counters"][k] = o["counters"].get(k, 0) + v
        o["sim_seconds"] += s.now * 1e-9
        o["sched_steps"] += s.steps
        o["max_steps"] = max(o.get("max_steps", 0), s.steps)
        S.add(s.sched.hexdigest())
        H.add(s.hash.hexdigest())
        T |= {"%x" % x for x in s.states}
        if i == 0:
            o["sample"] = p.text()
        if st[0]:
            o["counters"]["violation " + st[1]] = o["counters"].get("violation " + st[1], 0) + 1
            v = dict(seed=seed, cls=st[1], msg=st[2])
            if st[0] == 2:
                v["harness"] = True
            if not (st[1] in a.ignore) and (a.ignore != ["*"] or not any(w["cls"] == st[1] for w in o["violations"])):
                o["violations"].append(v)
                if a.ignore != ["*"]:
                    break
        if i < a.dup:  # determinism: the same plan again, from its text
            s2, st2 = run_plan(wl, Plan.parse(p.text()))
            o["dup"] += 1
            if (s2.hash.hexdigest(), st2) != (s.hash.hexdigest(), st):
                o["violations"].append(dict(seed=seed, cls="harness", msg="harness: two runs of seed %d differ" % seed, harness=True))
                break
    o["seconds"] = time.time() - t0
    o["sched_hashes"], o["trace_hashes"], o["state_hashes"] = sorted(S), sorted(H), sorted(T)
    with open(a.out, "w") as f:
        json.dump(o, f)
