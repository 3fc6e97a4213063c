"""The mpi module of the python package (triqs.utility.mpi) on simulated ranks: collectives, messages, slices (Y01)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import pysim
from pysim import Rng, SimProc, Violation, mix

NAME = "pympi"
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "python")
PAYLOADS = 7
REDUCE = 6


def generate(g, p):
    p.cfg.setdefault("ranks", g.pick([1, 1, 2, 2, 3, 4, 5, 7, 8]))
    n = p.cfg["ranks"]
    p.cfg["env"] = g.below(4)          # which variable tells of MPI
    p.cfg["rdv"] = g.below(2)          # sends wait for their receiver
    p.cfg["serial"] = int(n == 1 and g.chance(0.7))  # one process without MPI: the serial module
    for _ in range(g.range(1, 8)):
        o = g.below(11)
        v = g.below(1 << 30)
        if o < 2:
            p.op(0, "bcast", v, g.below(n) if g.chance(0.7) else -1)
        elif o < 4:
            p.op(0, "reduce", v, g.below(REDUCE))
        elif o == 4:
            p.op(0, "barrier", g.pick([-1, 0, 1, 3, 250]))
        elif o == 5:
            p.op(0, "slice", v, g.pick([0, 1, 2, 3, n - 1, n, n + 1, 2 * n, 2 * n - 1, g.below(40)]))
        elif o == 6:
            p.op(0, "oldreduce", v, g.below(2))
        elif o == 7:
            s = g.below(n)
            d = (s + 1 + g.below(n - 1)) % n if n > 1 else s
            p.op(0, "p2p", v, s, d, g.range(1, 3))
        elif o == 8:
            p.op(0, "ring", v)
        elif o == 9:
            p.op(0, "report", v, g.below(2))
        else:
            p.op(0, "hosts")
    for _ in range(g.pick([0, 0, 1, 2])):
        p.fault("stall", g.below(n), g.below(8), g.pick([1, 20, 3000, 100000, 3000000]))  # rank, op, microseconds


def value(v, r):
    """the value rank r has for the number v"""
    g = Rng(mix(v, r))
    k = v % PAYLOADS
    if k == 0:
        return g.below(1000)
    if k == 1:
        return None if v % 3 == 0 else "text %d" % g.below(100)
    if k == 2:
        return np.array([g.below(100) for _ in range(1 + v % 5)], dtype=float)
    if k == 3:
        return [g.below(9), (g.below(9), None), {"a": g.below(9)}]
    if k == 4:
        return 0
    if k == 5:
        return False if v % 2 else ""
    return np.array([[g.below(9) + 1j * g.below(9) for _ in range(2)] for _ in range(v % 3)])


def number(v, r, k):
    g = Rng(mix(v, 99, r))
    if k == 0 or k == 4:
        return g.below(1000)
    if k == 1:
        return float(g.below(1000))
    if k == 2:
        return np.array([g.below(100) for _ in range(1 + v % 5)], dtype=float)
    if k == 3:
        return complex(g.below(9), g.below(9))
    return 0 if v % 2 else g.below(3)  # 5: zero is a value as well


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and a.dtype == b.dtype and bool(np.all(a == b))
    return type(a) is type(b) and a == b


def setup(sim):
    n = sim.nranks
    sim.net.rendezvous = bool(sim.cfg["rdv"])
    sim.w = sim.world
    sim.w.inside = {}
    sim.w.left = {}
    sim.w.slices = {}
    sim.w.out = []
    env = {} if sim.cfg["serial"] else [{"OMPI_COMM_WORLD_RANK": "0"}, {"PMI_RANK": "0"}, {"CRAY_MPICH_VERSION": "8"}, {"TRIQS_FORCE_MPI_INIT": "1"}][sim.cfg["env"]]
    for r in range(n):
        p = SimProc(sim, r, [PKG], env=dict(env))
        sim.spawn("rank%d" % r, r, lambda r=r, p=p: rank_main(sim, r, p))


def check(ok, cls, fmt, *a):
    if not ok:
        raise Violation(cls, fmt % a)


def rank_main(sim, r, p):
    mpi = p.load("triqs.utility.mpi")
    n, w = sim.nranks, sim.w
    if sim.cfg["serial"]:
        sim.probe("serial module")
        check(mpi.world is None or True, "setup", "?")
    check(mpi.rank == r and mpi.size == n, "rank", "rank %d of %d believes to be rank %s of %s", r, n, mpi.rank, mpi.size)
    check(mpi.is_master_node() == (r == 0), "master", "is_master_node() is %s on rank %d", mpi.is_master_node(), r)
    for i, (_, name, a) in enumerate(sim.plan.ops):
        for k, f in sim.plan.faults:
            if k == "stall" and f[0] == r and f[1] == i:
                sim.fired("slow rank")
                sim.sleep(f[2] * 1000)
        sim.trace("op %d %s %r", i, name, a)
        sim.probe("op " + name)
        if name == "bcast":
            v, root = a
            if root < 0:
                root, x = 0, mpi.bcast(value(v, r))
            else:
                root %= n
                x = mpi.bcast(value(v, r), root=root)
            check(same(x, value(v, root)), "bcast", "op %d: rank %d receives %r in a broadcast of %r by rank %d", i, r, x, value(v, root), root)
        elif name == "reduce":
            v, k = a
            mine = number(v, r, k)
            if k == 4 and not sim.cfg["serial"]:
                x, want = mpi.all_reduce(mine, op=p.MPI.MAX), max(number(v, q, k) for q in range(n))
            elif k == 3 and not sim.cfg["serial"]:
                x, want = mpi.all_reduce(mine, comm=mpi.world), sum(number(v, q, k) for q in range(n))
            else:
                x, want = mpi.all_reduce(mine), number(v, 0, k)
                for q in range(1, n):
                    want = want + number(v, q, k)
            check(same(x, want), "all_reduce", "op %d: all_reduce gives %r on rank %d, the sum over the ranks is %r", i, x, r, want)
        elif name == "oldreduce":
            v, k = a
            x = mpi.all_reduce(mpi.world, number(v, r, k), lambda x, y: x + y)
            want = sum(number(v, q, k) for q in range(n))
            check(same(x, want), "all_reduce-old", "op %d: all_reduce(world, x, op) gives %r on rank %d, the sum over the ranks is %r", i, x, r, want)
        elif name == "barrier":
            w.inside.setdefault(i, set()).add(r)
            if a[0] < 0:
                mpi.barrier()
            else:
                mpi.barrier(a[0])
            check(len(w.inside[i]) == n, "barrier", "op %d: rank %d leaves the barrier while only ranks %s have come to it", i, r, sorted(w.inside[i]))
        elif name == "slice":
            v, m = a
            m = max(0, m)
            A = np.arange(m * 2).reshape(m, 2) * 7 if v % 2 else np.arange(m) + 3
            s = mpi.slice_array(A)
            check(m == 0 or len(s) == 0 or np.shares_memory(A, s), "slice-view", "op %d: the slice is no view", i)
            w.slices.setdefault(i, {})[r] = np.array(s)
            all_ = w.slices[i]
            if len(all_) == n:
                sizes = [len(all_[q]) for q in range(n)]
                check(sum(sizes) == m and same(np.concatenate([all_[q] for q in range(n)]), A), "slice", "op %d: the slices of %d elements on %d ranks have sizes %s and together are not the array", i, m, n, sizes)
                check(max(sizes) - min(sizes) <= 1, "slice-balance", "op %d: the slices of %d elements on %d ranks have sizes %s", i, m, n, sizes)
                sim.state(1, m, n)
        elif name == "p2p":
            v, s, d, c = a
            s, d = s % n, d % n
            if n == 1 and not sim.cfg["serial"]:
                continue  # a message to oneself may block
            for j in range(c):
                val = value(v + j, s)
                if val is None and sim.cfg["serial"]:
                    val = 17
                if n == 1:
                    mpi.send(val, d)
                    x = mpi.recv(s)
                    check(same(x, val), "p2p", "op %d: receives %r, sent was %r", i, x, val)
                else:
                    if r == s:
                        mpi.send(val, d)
                    if r == d:
                        x = mpi.recv(s) if s or v % 2 else mpi.recv()
                        check(same(x, val), "p2p", "op %d: rank %d receives %r from rank %d, which sent %r", i, r, x, s, val)
        elif name == "ring":  # everyone to the master and back: matched by source
            if n == 1:
                continue
            if r == 0:
                for q in list(range(1, n))[::-1 if a[0] % 2 else 1]:
                    x = mpi.recv(q)
                    check(same(x, value(a[0], q)), "p2p", "op %d: the master receives %r from rank %d, which sent %r", i, x, q, value(a[0], q))
                    mpi.send(value(a[0] + 1, q), q)
            else:
                mpi.send(value(a[0], r), 0)
                x = mpi.recv(0)
                check(same(x, value(a[0] + 1, r)), "p2p", "op %d: rank %d receives %r from the master, which sent %r", i, r, x, value(a[0] + 1, r))
        elif name == "report":
            t = "line %d" % a[0]
            b = len(p.sys.stdout.text), len(p.sys.stderr.text)
            if a[1]:
                mpi.report(t, stderr=True)
            else:
                mpi.report(t)
            o = "".join(p.sys.stdout.text[b[0]:]), "".join(p.sys.stderr.text[b[1]:])
            want = ("", "") if r else ("", t + "\n") if a[1] else (t + "\n", "")
            check(o == want, "report", "op %d: report(%r) on rank %d writes %r to the output, %r to the errors", i, t, r, o[0], o[1])
        elif name == "hosts":
            mpi.master_gets_host_names()
            if r == 0:
                o = p.sys.stdout.value()
                for q in range(n):
                    check(("Node %d  on machine host%d" % (q, q)) in o, "hosts", "op %d: the master does not report the host of rank %d", i, q)
        sim.state(2, i, n, hash_name(name))


def hash_name(s):
    v = 0
    for c in s.encode():
        v = mix(v, c)
    return v


def finish(sim):
    for r in range(sim.nranks):
        left = sim.net.box.get(r, [])
        check(not left, "left-message", "%d messages to rank %d were never received", len(left), r)


if __name__ == "__main__":
    pysim.main(globals())
