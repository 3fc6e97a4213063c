"""DistributionOnNodes on simulated ranks: every point computed and delivered exactly once (Y02)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import pysim
from pysim import Rng, SimProc, Violation, mix, Killed

NAME = "pydist"
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "python")


def generate(g, p):
    p.cfg.setdefault("ranks", g.pick([1, 2, 2, 3, 3, 4, 5, 8]))
    n = p.cfg["ranks"]
    p.cfg["rdv"] = g.below(2)
    p.cfg["stack"] = g.below(2)     # the class with a stack of points, or a calculation that finds new points as it goes
    p.cfg["kind"] = g.below(4)      # what points are
    p.cfg["sleep_ms"] = g.pick([1000, 1000, 100, 20])
    for _ in range(g.pick([1, 1, 1, 2])):
        p.op(0, "run", g.below(1 << 30), g.pick([0, 0, 1, 1, 2, 3, n - 1, n, n + 1, 2 * n, g.below(12)]), g.pick([0, 0, 20, 60]), g.pick([0, 0, 30]))
        # number, points, permil/10 of None results, of new points
    # durations: a node, how slow
    for r in range(n):
        if g.chance(0.5):
            p.fault("slow", r, g.pick([1, 10, 100]))
    if n > 1 and g.chance(0.25):
        f = g.below(3)
        if f == 0:
            p.fault("killchild", g.below(4), g.below(1000))
        elif f == 1:
            p.fault("cio", g.range(1, 3), g.below(2), g.range(1, 3))
        else:
            p.fault("throw", g.below(6))


def point(kind, v, i):
    """the i-th point"""
    if kind == 0:
        return i - v % 7                      # zero is a point
    if kind == 1:
        return (i, "p")
    if kind == 2:
        return np.array([float(i), 0.0])  # as are arrays
    return "" if i == v % 7 else "p%d" % i


def number(kind, v, x):
    return int(x) + v % 7 if kind == 0 else int(x[0]) if kind < 3 else int(x[1:] or v % 7)


def setup(sim):
    sim.net.rendezvous = bool(sim.cfg["rdv"])
    w = sim.world
    w.computed, w.runs, w.ended = {}, {}, {}
    w.expect = [k for k, a in sim.plan.faults if k in ("killchild", "cio", "throw")]
    w.threw = False

    def effect(pid, kind, v):
        if kind == "compute":
            w.computed[v] = w.computed.get(v, 0) + 1
        elif kind == "threw":
            w.threw = True
    sim.child_effect = effect
    env = {"OMPI_COMM_WORLD_RANK": "0"} if sim.nranks > 1 or sim.plan.seed % 2 else {}
    for r in range(sim.nranks):
        p = SimProc(sim, r, [PKG], env=dict(env))
        sim.spawn("rank%d" % r, r, lambda r=r, p=p: rank_main(sim, r, p))


def check(ok, cls, fmt, *a):
    if not ok:
        raise Violation(cls, fmt % a)


class UserError(Exception):
    pass


def make(sim, r, p, dn, j, v, npts, nones, news):
    """the user's class of calculation number j"""
    kind, w = sim.cfg["kind"], sim.world
    slow = [f[1] for k, f in sim.plan.faults if k == "slow" and f[0] == r]
    throws = [f[0] for k, f in sim.plan.faults if k == "throw"]

    def is_none(i):
        return Rng(mix(v, 3, i)).below(100) < nones

    def fun(self, x):
        i = number(kind, v, x)
        check(sim.in_child or r > 0 or sim.nranks == 1, "blocking", "calculation %d: the master computes point %d itself", j, i)
        if sim.in_child:
            sim.effects.append(("compute", (j, i)))
        else:
            w.computed[j, i] = w.computed.get((j, i), 0) + 1
        sim.trace("computes point %d of %d", i, j)
        p.mods["time"].sleep(1e-3 * Rng(mix(v, 4, i, r)).pick([0, 0.01, 1, 10]) * (slow[0] if slow else 1))
        if i in throws and r == 0:
            if sim.in_child:
                sim.effects.append(("threw", 0))
            else:
                w.threw = True
            sim.fired("exception of the user")
            raise UserError("no")
        return None if is_none(i) else (i, r, "result" * (i % 5))

    class Common:
        SleepTime = sim.cfg["sleep_ms"] * 1e-3
        the_function = fun

    if sim.cfg["stack"]:
        class Calc(Common, dn.DistributionOnNodesOneStack):
            pass
        pts = [point(kind, v, i) for i in range(npts)]
        before = list(pts)
        c = Calc(pts)
        c.mine, c.before = pts, before
        return c, is_none

    class Calc(Common, dn.DistributionOnNodes):
        def __init__(self):
            self.wait, self.out, self.made, self.got = list(range(npts)), 0, npts, []

        def treate(self, x, node):
            self.got.append((node, x))
            self.out -= 1
            i = x[0]
            if Rng(mix(v, 5, i)).below(100) < news and self.made < npts + 6:
                self.wait.append(self.made)
                self.made += 1

        def finished(self):
            return not self.wait and self.out == 0

        def __next__(self):
            if not self.wait:
                sim.probe("nothing to do now")
                return None
            i = self.wait.pop(0)
            if not is_none(i):
                self.out += 1
            return point(kind, v, i)
    return Calc(), is_none


def rank_main(sim, r, p):
    w = sim.world
    dn = p.load("triqs.utility.dist_on_nodes")
    for j, (_, name, a) in enumerate(sim.plan.ops):
        v, npts, nones, news = a
        npts = max(0, npts)
        sim.trace("calculation %d: %d points", j, npts)
        c, is_none = make(sim, r, p, dn, j, v, npts, nones, news)
        try:
            res = c.run()
        except UserError:
            check(not sim.in_child, "child-escapes", "calculation %d: the child goes on in the user's program after an exception", j)
            if sim.nranks > 1:
                raise
            sim.abort(None, "user")
            return
        except Exception as e:
            check(not sim.in_child, "child-escapes", "calculation %d: the child goes on in the user's program after %s", j, type(e).__name__)
            bad = [q for q in sim.reaped if q[1]["status"] != 0]
            if r == 0 and sim.nranks > 1 and (bad or [k for k, f in sim.plan.faults if k == "io"]):  # reported: the job ends
                sim.probe("failure reported")
                sim.abort(None, "failure")
                return
            raise
        check(not sim.in_child, "child-escapes", "calculation %d: the child returns from run()", j)
        w.ended[j, r] = True
        sim.probe("calculations")
        if r == 0:
            got = res if sim.cfg["stack"] else c.got
            total = npts if sim.cfg["stack"] else c.made
            bad = [q for q in sim.reaped if q[1]["status"] != 0]
            check(not bad, "failure-ignored", "calculation %d: a child ended with status %s, and the calculation goes on as if nothing had happened", j, [q[1]["status"] for q in bad])
            ids = sorted(x[0] for _, x in got if x is not None)
            check(all(x is not None for _, x in got), "none-delivered", "calculation %d: a None result is delivered: %r", j, got)
            want = [i for i in range(total) if not is_none(i)]
            check(ids == want, "delivery", "calculation %d on %d ranks: the results of the points %s are delivered, expected are those of %s", j, sim.nranks, ids, want)
            for node, x in got:
                check(node == x[1], "node", "calculation %d: the result of point %d comes from rank %d, delivered with %d", j, x[0], x[1], node)
                check(x[2] == "result" * (x[0] % 5), "value", "calculation %d: wrong result of point %d", j, x[0])
                sim.state(j, node, x[0], sim.nranks)
            n = [w.computed.get((j, i), 0) for i in range(total)]
            check(all(k == 1 for k in n), "computed", "calculation %d: the points are computed %s times", j, n)
            check(not sim.children, "child-left", "calculation %d: a child of the master is still there after run()", j)
        if sim.cfg["stack"]:
            check(len(c.mine) == len(c.before), "users-list", "calculation %d: the list of points of the user has changed", j)


def finish(sim):
    if sim.aborting:
        return
    for r in range(sim.nranks):
        left = sim.net.box.get(r, [])
        check(not left, "left-message", "%d messages to rank %d were never received", len(left), r)


if __name__ == "__main__":
    pysim.main(globals())
