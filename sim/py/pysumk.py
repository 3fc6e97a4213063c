"""Lattice sums, Hilbert transforms (Y04), objects on their way between processes (Y05) and root finding (Y06) on simulated ranks."""
import math, os, sys, types, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import pysim, pytriqs
from pysim import Rng, SimProc, Violation, mix

NAME = "pysumk"
MAXSTEPS = 400000
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "python")
OBJECTS = 16


def generate(g, p):
    p.cfg.setdefault("ranks", g.pick([1, 1, 2, 2, 3, 3, 4, 5, 8]))
    n = p.cfg["ranks"]
    p.cfg.setdefault("prop", 4)
    p.cfg["rdv"], p.cfg["own"] = g.below(2), g.below(2)
    p.cfg["serial"] = int(n == 1 and g.chance(0.5))
    for _ in range(g.pick([1, 1, 2, 3])):
        v = g.below(1 << 30)
        if p.cfg["prop"] == 4:
            k = g.below(10)
            nk = g.pick([1, 2, 3, max(1, n - 1), n, n + 1, 2 * n, g.range(1, 14)])
            if k < 4:
                p.op(0, "sumk", v, nk, g.below(3), g.below(6), g.below(3), g.below(2), g.pick([0, 0, 0, 1, 2]))  # number, k points, Sigma, field, epsilon_hat, result, further calls
            elif k < 6:
                p.op(0, "lattice", v, g.pick([1, 2, 3, 4]), g.below(3), g.below(5), g.below(4), g.pick([0, 0, 1]))  # points, dimension, field, shift or patch, another grid afterwards
            else:
                p.op(0, "hilbert", v, g.pick([2, 3, max(2, n), n + 1, g.range(2, 14)]), g.below(2), g.below(5), g.below(2), g.below(2), g.below(4), g.pick([0, 0, 0, 1, 2, 3]))
                # points, Sigma, field, epsilon_hat, result, DOS: given, function, other number of points, refined; further calls
        elif p.cfg["prop"] == 5:
            k = g.below(6)
            if k < 3:
                p.op(0, "bcast", v, g.below(OBJECTS), g.below(n))
            elif k == 3 and n > 1:
                s = g.below(n)
                p.op(0, "send", v, g.below(OBJECTS), s, (s + 1 + g.below(n - 1)) % n)
            elif k == 4:
                p.op(0, "sum", v, g.below(4))
            else:
                p.op(0, "usebcast", v, g.below(3), g.below(n))
        else:
            p.op(0, g.pick(["dichotomy", "dichotomy", "bisect"]), v, g.below(6), g.pick([1, 3, 6, 9]), g.pick([1000, 1000, 40, 5]), g.below(3))
            # number, function, digits of the precision, loops, a collective function
    for _ in range(g.pick([0, 0, 1, 2])):
        p.fault("stall", g.below(n), g.below(4), g.pick([1, 20, 3000, 100000, 3000000]))  # rank, op, microseconds


def check(ok, cls, fmt, *a):
    if not ok:
        raise Violation(cls, fmt % a)


def setup(sim):
    sim.net.rendezvous = bool(sim.cfg["rdv"])
    w = sim.world
    w.results, w.calls, w.points, w.ref = {}, {}, {}, {}
    w.ended = {}
    env = {} if sim.cfg.get("serial") else {"OMPI_COMM_WORLD_RANK": "0"}
    for r in range(sim.nranks):
        p = SimProc(sim, r, [PKG], env=dict(env))
        pytriqs.stand_ins(p)
        p.MPI.COMM_WORLD.proc, p.MPI.COMM_WORLD.own_root = p, bool(sim.cfg["own"])
        prog = types.ModuleType("userprog")
        exec(USERPROG, prog.__dict__)
        p.mods["userprog"] = prog
        sim.spawn("rank%d" % r, r, lambda r=r, p=p: rank_main(sim, r, p))


USERPROG = """
from math import exp
def smooth(x):
    return exp(-x * x) + 0.1
def semi(x):
    return max(0.0, 1.0 - x * x) ** 0.5 + 1e-3
"""


# ------------------------------------------------------------------------------------------------ numbers
def rnd(v, *shape):
    n = int(np.prod(shape)) if shape else 1
    g = Rng(mix(v, 11))
    a = np.array([2 * g.uniform() - 1 for _ in range(n)])
    return a.reshape(shape) if shape else a[0]


def herm(v, n):
    m = rnd(mix(v, 1), n, n) + 1j * rnd(mix(v, 2), n, n)
    return (m + m.conj().T) / 2


def psd(v, n):
    m = rnd(mix(v, 3), n, n) + 1j * rnd(mix(v, 4), n, n)
    return m @ m.conj().T * 0.3


def sigma_data(v, no, zs, k=None, eps=None):
    """a self-energy with a negative imaginary part, for one k"""
    x = 0.0 if k is None else float(np.sum(np.cos(2 * np.pi * np.array(k))))
    a, b = herm(v, no), psd(mix(v, 7), no)
    r = np.empty((len(zs), no, no), complex)
    for i, z in enumerate(zs):
        r[i] = a * (1 + 0.3 * x) - 1j * np.sign(z.imag) * b * (1 + 0.1 * x)
    if eps is not None:
        r += 0.2 * eps
    return r


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.max(np.abs(b), initial=0))))


def gf(p, mesh, data, name=""):
    return p.load("triqs.gf").Gf(mesh=mesh, data=data, name=name)


def matsubara(p, v):
    g = Rng(mix(v, 21))
    m = p.load("triqs.gf").MeshImFreq(g.pick([1.0, 2.5, 10.0]), g.pick(["Fermion", "Fermion", "Boson"]) if v % 5 == 0 else "Fermion", g.range(1, 4))
    return m, [complex(x.value) for x in m]


def check_work(sim, j, nk, what):
    """every point evaluated, and not by everybody"""
    pts = sim.world.points.get(j)
    if pts is None:
        return
    check(set(range(nk)) <= set(pts), "points", "op %s: Sigma is never asked for the %s %s", j, what, sorted(set(range(nk)) - set(pts)))
    total = sum(pts.values())
    check(total <= nk + 3 * sim.nranks, "work", "op %s: %d ranks evaluate Sigma %d times for %d %ss", j, sim.nranks, total, nk, what)


def collect(sim, r, j, what, data, ref):
    """the result of a collective calculation on one rank"""
    for b, (x, y) in enumerate(zip(data, ref)):
        check(close(x, y), "value", "op %s (%s): block %d on rank %d of %d differs from the sum over all points by %.3g", j, what, b, r, sim.nranks, float(np.max(np.abs(np.asarray(x) - y))))
    sim.world.results.setdefault(j, {})[r] = b"".join(np.ascontiguousarray(x).tobytes() for x in data)
    sim.trace("op %s %s done", j, what)


# ------------------------------------------------------------------------------------------------ k sums
def make_field(p, v, kind, names, mesh, zs, no):
    """something independent of k, and what it adds to every block"""
    if kind == 0:
        return None, [0] * len(names)
    if kind == 1:
        x = float(rnd(mix(v, 31)))
        return x, [x * np.identity(no)] * len(names)
    if kind == 2:
        x = complex(rnd(mix(v, 31)))
        return x, [x * np.identity(no)] * len(names)
    if kind == 3:
        m = herm(mix(v, 32), no)
        return m, [m] * len(names)
    d = [sigma_data(mix(v, 33, b), no, zs) for b in range(len(names))]
    if kind == 4:
        l = [gf(p, mesh, x.copy()) for x in d]
        return p.load("triqs.gf").BlockGf(name_list=names, block_list=l), d
    m = [herm(mix(v, 34, b), no) for b in range(len(names))]
    return m, m


def sum_reference(zs, weights, hoppings, sig, mu, fld, hat):
    """sig(b, i): the self-energy of block b at point i"""
    r = []
    for b in range(len(fld)):
        x = 0
        for i, (w, e) in enumerate(zip(weights, hoppings)):
            e = hat(e)
            no = e.shape[0]
            m = np.array([z * np.identity(no) for z in zs]) + mu * np.identity(no) - e - fld[b] - sig(b, i)
            x = x + w * np.linalg.inv(m)
        r.append(x)
    return r


def sumk_call(sim, r, p, j, v, sk, kindS, kindF, kindE, kindR, weights, hop, pts, what):
    g = Rng(mix(v, 41))
    w = sim.world
    gfm = p.load("triqs.gf")
    mesh, zs = matsubara(p, v)
    n0 = hop.shape[1]
    if mesh.statistic == "Boson" and not any(z.imag == 0 for z in zs):
        zs = list(zs)
    hat = None
    no = n0
    if kindE == 1:
        no, hat = 2 * n0, lambda e: np.kron(np.identity(2), e) + 0.1
    elif kindE == 2:
        hat = lambda e: 0.5 * e
    names = [["up", "down"], ["a"], ["x", "y", "z"]][v % 3]
    mu = g.pick([0, 0.3, -1.7])
    field, fld = make_field(p, v, kindF, names, mesh, zs, no)
    nk = len(pts)
    if mesh.statistic == "Boson":  # keep every matrix invertible at zero frequency
        off = 1j * 5 * np.identity(no)
    else:
        off = 0

    def block(k, e, seed=0):
        return gfm.BlockGf(name_list=list(names), block_list=[gf(p, mesh.copy(), sigma_data(mix(v, 50, b), no, zs, k, hat(e) if e is not None and hat else e) + off) for b in range(len(names))])
    seen = w.points.setdefault(j, {}) if kindS else None
    buf = []

    def where(k, e):
        i = [q for q in range(nk) if np.allclose(pts[q], k, atol=1e-12)]
        check(len(np.shape(k)) == 1 and i, "point", "op %s: Sigma is asked for the point %s, which is not one of the sum", j, k)
        if e is not None:
            check(any(close(hop[q], e) for q in i), "hopping", "op %s: Sigma is called with the hopping of another point than %s", j, k)
        for q in i:
            seen[q] = seen.get(q, 0) + 1

    def give(b):
        if v % 4 < 2:
            return b
        if not buf:
            buf.append(b)
        else:
            buf[0] << b
        return buf[0]     # always the same object
    calls = 0
    if kindS == 0:
        Sigma = block(None, None)
        sig = lambda b, i: sigma_data(mix(v, 50, b), no, zs) + off
    elif kindS == 1:
        def Sigma(k):
            where(k, None)
            return give(block(k, None))
        sig = lambda b, i: sigma_data(mix(v, 50, b), no, zs, pts[i]) + off
    else:
        def Sigma(k, eps):
            where(k, eps)
            return give(block(k, eps))
        sig = lambda b, i: sigma_data(mix(v, 50, b), no, zs, pts[i], hat(hop[i]) if hat else hop[i]) + off
    if kindS and v % 7 < 3:  # a method
        f = Sigma
        C = type("C", (), {"m": (lambda self, k: f(k)) if kindS == 1 else (lambda self, k, e: f(k, e)), "__call__": (lambda self, k: f(k)) if kindS == 1 else (lambda self, k, e: f(k, e))})
        Sigma = C().m if v % 7 < 2 else C()
    result = None
    if kindR:
        result = block(None, None)
        result *= 3.0
    before = [b.data.copy() for _, b in Sigma] if kindS == 0 else None
    kw = {}
    if v % 2 or field is not None:
        kw["field"] = field
    if hat:
        kw["epsilon_hat"] = hat
    if result is not None:
        kw["result"] = result
    G = sk(Sigma, mu, **kw) if v % 3 else sk(Sigma=Sigma, mu=mu, **kw)
    check(result is None or G is result, "result", "op %s: the sum is not computed into the given result", j)
    check([n for n, _ in G] == names, "blocks", "op %s: blocks %s instead of %s", j, [n for n, _ in G], names)
    check(all(b.mesh == mesh for _, b in G), "mesh", "op %s: the mesh of the result is another one", j)
    if kindS == 0:
        check(G is not Sigma and all(np.array_equal(x, b.data) for x, (_, b) in zip(before, Sigma)), "argument", "op %s: the self-energy has changed", j)
    if kindF == 4:
        check(all(np.array_equal(x, b.data) for x, (_, b) in zip(fld, field)), "argument", "op %s: the field has changed", j)
    if j not in w.ref:
        w.ref[j] = sum_reference(zs, weights, hop, sig, mu, fld, hat or (lambda e: e))
    collect(sim, r, j, what, [b.data for _, b in G], w.ref[j])
    if kindS:
        w.calls[j] = (nk, "k point")


def op_sumk(sim, r, p, j, v, nk, kindS, kindF, kindE, kindR, more=0):
    nk = max(1, nk)
    g = Rng(mix(v, 40))
    dim, no = g.range(1, 3), g.range(1, 2)
    sk = p.load("triqs.sumk").SumkDiscrete(dim, ["o%d" % i for i in range(no)])
    for i in range(1 + more):
        u, name = v, j
        if i:  # the same object once more, with other points, other hoppings or only another call
            u, name = mix(v, 45, i) >> 34, "%d (call %d)" % (j, i + 1)
            kindS, kindF, kindE, kindR = u % 3, u // 3 % 6, u // 18 % 3, u // 54 % 2
        change = u // 108 % 3 if i else 0
        if change == 0:
            nk = nk if i == 0 or u % 2 else 1 + u // 324 % 9
            sk.resize_arrays(nk)
            check(close(np.sum(sk.bz_weights), 1.0), "weights", "op %s: the default weights of %d points do not sum up to one", name, nk)
            sk.bz_points[...] = rnd(mix(u, 43), nk, dim) / 2
            if u % 2:
                x = np.abs(rnd(mix(u, 44), nk)) + 0.1
                sk.bz_weights[...] = x / np.sum(x)
        if change < 2:
            sk.hopping[...] = np.array([herm(mix(u, 42, q), no) for q in range(nk)])
        keep = [sk.hopping.copy(), sk.bz_points.copy(), sk.bz_weights.copy()]
        sumk_call(sim, r, p, name, u, sk, kindS, kindF, kindE, kindR, keep[2], keep[0], keep[1], "sum over %d points" % nk)
        check(all(np.array_equal(x, y) for x, y in zip(keep, [sk.hopping, sk.bz_points, sk.bz_weights])), "arrays", "op %s: the arrays of the sum have changed", name)
        check(sk.n_kpts() == nk, "n_kpts", "op %s: n_kpts() is %s", name, sk.n_kpts())


def make_lattice(p, v, dim):
    tb = p.load("triqs.lattice.tight_binding")
    g = Rng(mix(v, 60))
    no = g.range(1, 2)
    hop = {}
    for i in range(dim):
        d = [0] * dim
        d[i] = 1
        t = rnd(mix(v, 61, i), no, no)
        hop[tuple(d)] = t
        hop[tuple(-x for x in d)] = t.T
    hop[(0,) * dim] = herm(mix(v, 62), no).real
    l = tb.TBLattice(units=[tuple(float(a == b) for b in range(dim)) for a in range(dim)], hoppings=hop, orbital_positions=[(0, 0, 0)] * no, orbital_names=["o%d" % i for i in range(no)])
    return l, hop, no


def fourier(hop, k):
    return sum(np.exp(2j * np.pi * np.dot(k, d)) * t for d, t in hop.items())


def make_patch(p, v):
    """a patch of the Brillouin zone cut in triangles, and the weights of the triangles"""
    bz = p.load("triqs.lattice.bz_patch")
    if v % 3 == 0:
        return bz.BZPatch("patch", [[(0.0, 0.0), (0.5, 0.0), (0.5, 0.5), (0.1, 0.4)][:3 + v % 2]])
    return bz.BZPatch("patch", [[tuple(rnd(mix(v, 63, i, q), 2) * 0.5) for q in range(3)] for i in range(1 + v % 2)])


def patch_points(patch, n):
    """the centres of the n*n small triangles each triangle is cut into"""
    pts, ws = [], []
    tri = np.array(patch._triangles).reshape(-1, 3, 2)
    for (a, b, c), w in zip(tri, patch._weights):
        for i in range(n):
            for q in range(n - i):
                o = a + (b - a) * i / n + (c - a) * q / n
                pts.append(o + ((b - a) + (c - a)) / (3 * n))
                ws.append(w)
                if q < n - i - 1:
                    pts.append(o + 2 * ((b - a) + (c - a)) / (3 * n))
                    ws.append(w)
    return np.array(pts), np.array(ws) / np.sum(ws)


def lattice_points(dim, n, Q=None):
    """a regular grid of n points in each direction"""
    x = [(i - n / 2 + 1.0) / n for i in range(n)]
    pts = np.array(np.meshgrid(*[x] * dim, indexing="ij")).reshape(dim, -1).T
    return pts + (0 if Q is None else np.array(Q)), np.ones(len(pts)) / len(pts)


def make_sumk_lattice(sim, p, j, v, n, dim, kind):
    sm = p.load("triqs.sumk")
    if kind == 2:
        dim = 2
    l, hop, no = make_lattice(p, v, dim)
    if kind == 2:
        patch = make_patch(p, v)
        sk = sm.SumkDiscreteFromLattice(l, patch, n) if v % 2 else sm.SumkDiscreteFromLattice(lattice=l, patch=patch, n_points=n)
        pts, ws = patch_points(patch, n)
    else:
        sk = sm.SumkDiscreteFromLattice(l, n_points=n if kind == 0 else 1 + n % 3)
        Q = None
        if kind == 1:
            Q = [0.1 * (i + 1) for i in range(dim)]
            Q = Q if v % 3 == 0 else tuple(Q) if v % 3 == 1 else np.array(Q)
            sk.Recompute_Grid(n, Q=Q)
        elif kind == 3:
            sk.Recompute_Grid(n)
        pts, ws = lattice_points(dim, n, Q)
    hops = np.array([fourier(hop, k) for k in pts])
    return sk, pts, ws, hops, no


def same_grid(sim, j, sk, pts, ws, hops):
    check(sk.bz_points.shape == pts.shape and sk.n_kpts() == len(pts), "grid", "op %s: %s points instead of %s", j, sk.bz_points.shape, pts.shape)
    a = sorted((tuple(np.round(k, 9) + 0.0), round(float(w), 12)) for k, w in zip(sk.bz_points, sk.bz_weights))
    b = sorted((tuple(np.round(k, 9) + 0.0), round(float(w), 12)) for k, w in zip(pts, ws))
    for (x, y), (z, t) in zip(a, b):
        check(np.allclose(x, z, atol=2e-9) and abs(y - t) <= 1e-9, "grid", "op %s: point %s with weight %.9g where %s with %.9g is expected", j, x, y, z, t)
    for k, h in zip(sk.bz_points, sk.hopping):
        i = min(range(len(pts)), key=lambda q: float(np.sum(np.abs(pts[q] - k))))
        check(close(h, hops[i]), "hopping", "op %s: the hopping at %s is not the one of the lattice", j, k)


def op_lattice(sim, r, p, j, v, n, dim, kindF, kind, more=0):
    n, dim = max(1, n), 1 + dim % 3
    if dim == 3 or kind == 2:
        n = min(n, 3)
    sk, pts, ws, hops, no = make_sumk_lattice(sim, p, j, v, n, dim, kind)
    same_grid(sim, j, sk, pts, ws, hops)
    sumk_call(sim, r, p, j, v, sk, v // 5 % 3, kindF, 0, 0, ws, hops, pts, "lattice sum")
    if more:  # another grid on the same lattice
        n, name = 1 + v // 15 % 3, "%d (call 2)" % j
        sk.Recompute_Grid(n)
        pts, ws = patch_points(sk.patch, n) if kind == 2 else lattice_points(sk.dim, n)
        hops = np.array([fourier(sk.SL.hoppings, k) for k in pts])
        same_grid(sim, name, sk, pts, ws, hops)
        sumk_call(sim, r, p, name, mix(v, 46) >> 34, sk, v // 45 % 3, kindF, 0, 0, ws, hops, pts, "lattice sum")


# ------------------------------------------------------------------------------------------------ Hilbert transforms
def dos_weights(eps, rho):
    R = np.array(rho, float)
    d = np.diff(eps)
    R[0] *= d[0]
    R[-1] *= d[-1]
    R[1:-1] *= (d[1:] + d[:-1]) / 2
    return R / np.sum(R)


def hilbert_call(sim, r, p, j, v, ht, dos, fun, n, kindS, kindF, kindE, kindR, kindD):
    w = sim.world
    g = Rng(mix(v, 71))
    gfm = p.load("triqs.gf")
    no = g.range(1, 2)
    refreq = v % 6 == 0
    if refreq:
        mesh = gfm.MeshReFreq(-2.0, 2.0, g.range(2, 5))
        zs = [float(x.value) for x in mesh]
    else:
        mesh, zs = matsubara(p, v)
    eta = 0.5 if refreq or mesh.statistic == "Boson" else g.pick([0, 0, 0.1])
    mu = g.pick([0, 0.4, -1.1])
    shift = [complex(z) + 1j * eta for z in zs]
    szs = [s if abs(s.imag) > 0 else s + 1j for s in shift]

    def grid(m):
        x = np.array([-1.0 + 2.0 * i / (m - 1) for i in range(m)])
        return x, np.array([fun(e) for e in x])
    kwargs = {}
    n1 = n
    if kindD == 2:
        n1 = kwargs["n_points_integral"] = max(2, n + v % 5 - 1)
    tol = None
    if kindD == 3:
        tol = kwargs["test_convergence"] = g.pick([0.3, 0.05, 0.01, 0.01]) if sim.nranks < 4 or v % 9 else 1e-13
        if v % 2:
            n1 = kwargs["n_points_integral"] = 2 + v % 5
        if tol < 1e-3:
            n1 = kwargs["n_points_integral"] = 2

    def sdata(e):
        return sigma_data(mix(v, 74), no, szs) * (1 if e is None else 1 + 0.1 * float(np.tanh(e)))
    if kindS == 0:
        Sigma = gf(p, mesh, sdata(None))
    else:
        seen = w.points.setdefault(j, {}) if kindD < 2 else None
        eps0 = np.array(dos.eps) if fun is None else grid(n)[0]

        def Sigma(e):
            if seen is not None:
                i = int(np.argmin(np.abs(eps0 - e)))
                check(abs(eps0[i] - e) < 1e-12, "point", "op %s: Sigma is asked for the energy %s, which is not one of the sum", j, e)
                seen[i] = seen.get(i, 0) + 1
            return gf(p, mesh.copy(), sdata(e))
        if v % 7 < 2:
            f = Sigma
            Sigma = type("C", (), {"m": lambda self, e: f(e)})().m
        if seen is not None:
            w.calls[j] = (len(eps0), "energy")
    if kindF == 0:
        field, fld = None, 0
    elif kindF == 1:
        field = float(rnd(mix(v, 75)))
        fld = field * np.identity(no)
    elif kindF == 2:
        field = herm(mix(v, 76), no)
        fld = field.copy()
    elif kindF == 3:
        fld = sigma_data(mix(v, 77), no, szs)
        field = gf(p, mesh, fld.copy())
    else:
        field = complex(rnd(mix(v, 75)))
        fld = field * np.identity(no)
    A, B = herm(mix(v, 78), no), herm(mix(v, 79), no)

    def hat(eps):
        return np.array([e * A + B for e in eps]) if kindE else np.array([e * np.identity(no) for e in eps])

    def H(eps, rho):
        x = 0
        for e, q, h in zip(eps, dos_weights(eps, rho), hat(eps)):
            m = np.array([s * np.identity(no) for s in shift]) + mu * np.identity(no) - h - fld - sdata(e if kindS else None)
            x = x + q * np.linalg.inv(m)
        return x
    if j not in w.ref:
        if kindD == 0:
            w.ref[j] = [H(dos.eps, dos.rho)]
        elif kindD < 3:
            w.ref[j] = [H(*grid(n1))]
        else:
            m, x, loops = n1, H(*grid(n1)), 0
            while loops < 10:
                loops, m = loops + 1, 2 * m
                old, x = x, H(*grid(m))
                sim.probe("refinements")
                if np.max(np.abs(x - old)) <= np.max(np.abs(x)) * tol:
                    break
            w.ref[j] = [x]
    if eta:
        kwargs["eta"] = eta
    if kindE:
        kwargs["epsilon_hat"] = hat
    if field is not None:
        kwargs["field"] = field
    result = None
    if kindR:
        result = kwargs["result"] = gf(p, mesh, np.ones((len(zs), no, no), complex))
    before = Sigma.data.copy() if kindS == 0 else None
    G = ht(Sigma, mu, **kwargs)
    check(result is None or G is result, "result", "op %s: the transform is not computed into the given result", j)
    check(G.mesh == mesh and G.target_shape == (no, no), "mesh", "op %s: mesh or shape of the result", j)
    if kindS == 0:
        check(G is not Sigma and np.array_equal(before, Sigma.data), "argument", "op %s: the self-energy has changed", j)
    if kindF == 3:
        check(np.array_equal(field.data, fld), "argument", "op %s: the field has changed", j)
    collect(sim, r, j, "Hilbert transform", [G.data], w.ref[j])


def op_hilbert(sim, r, p, j, v, n, kindS, kindF, kindE, kindR, kindD, more=0):
    """transforms of one DOS, by one or several HilbertTransform"""
    dm = p.load("triqs.dos")
    n = max(2, n) if kindD != 3 else min(max(2, n), 6)
    fun = None
    if kindD == 0:
        x = np.sort(rnd(mix(v, 72), n) * 2)
        x = x + 0.05 * np.arange(n)
        y = np.abs(rnd(mix(v, 73), n)) + 0.1
        dos = dm.DOS(x if v % 2 else list(x), y if v % 3 else list(y), "d")
    else:
        fun = p.mods["userprog"].smooth if v % 2 else p.mods["userprog"].semi
        dos = dm.DOSFromFunction(fun, -1.0, 1.0, n)
    hts = [dm.HilbertTransform(dos)]
    before = digest(p, dos)
    for i in range(1 + more):
        u = v if i == 0 else mix(v, 700, i) >> 34
        if i:
            kindS, kindF, kindE, kindR = u % 2, u // 2 % 5, u // 10 % 2, u // 20 % 2
            kindD = kindD if kindD == 0 else 1 + u // 40 % 3
            if u // 120 % 3 == 0:
                hts.append(dm.HilbertTransform(dos))
        hilbert_call(sim, r, p, j if i == 0 else "%d (call %d)" % (j, i + 1), u, hts[u // 7 % len(hts)], dos, fun, n, kindS, kindF, kindE, kindR, kindD)
        if kindD == 0:
            check(digest(p, dos) == before, "dos", "op %d: the transform has changed its DOS", j)


# ------------------------------------------------------------------------------------------------ objects on their way
def any_mesh(p, v, bl=None):
    g = p.load("triqs.gf")
    k = v % 8
    if k == 0:
        return g.MeshImFreq(1.0 + v % 3, ["Fermion", "Boson"][v // 8 % 2], 1 + v // 16 % 4)
    if k == 1:
        return g.MeshImTime(2.0, "Fermion", 2 + v // 8 % 4)
    if k == 2:
        return g.MeshReFreq(-1.0, 1.5, 2 + v // 8 % 4)
    if k == 3:
        return g.MeshReTime(-1.0, 1.5, 2 + v // 8 % 4)
    if k == 4:
        return g.MeshLegendre(3.0, "Fermion", 1 + v // 8 % 5)
    if k == 5:
        return g.MeshDLRImFreq(3.0, "Fermion", 2.0, 1e-6)
    l, _, _ = make_lattice(p, 7, 2)
    if k == 6:
        return g.MeshBrZone(l.bz, 2)
    return g.MeshProduct(any_mesh(p, 6), any_mesh(p, v // 8 % 6)) if v % 2 else g.MeshProduct(any_mesh(p, 0), any_mesh(p, 1), any_mesh(p, 2))


def any_gf(p, v, i=0):
    g = p.load("triqs.gf")
    m = any_mesh(p, v)
    sh = [(), (1, 1), (2, 2), (1, 2), (3,), (2, 2, 2, 2)][v // 3 % 6]
    l = tuple(m.size_of_components()) if isinstance(m, g.MeshProduct) else (len(m),)
    d = rnd(mix(v, 81, i), *(l + sh))
    if v // 5 % 3:
        d = d + 1j * rnd(mix(v, 82, i), *(l + sh))
    return g.Gf(mesh=m, data=d, name=["", "G", "a name"][v % 3])


def make_object(sim, p, v, kind):
    g = p.load("triqs.gf")
    if kind == 0:
        return any_gf(p, v)
    if kind == 1:  # a view: part of the target, or real or imaginary part
        m = any_mesh(p, v % 3)
        x = g.Gf(mesh=m, data=rnd(mix(v, 83), len(m), 3, 3) + 1j * rnd(mix(v, 84), len(m), 3, 3), name="G")
        return [x[0:2, 1:3], x.real, x.imag, x[1, 2], x.transpose()][v % 5]
    if kind == 2:
        names = [["up", "down"], ["b", "a", "c"], ["one"]][v % 3]
        return g.BlockGf(name_list=names, block_list=[any_gf(p, v, i) for i in range(len(names))], name=["G", "", "S"][v // 3 % 3])
    if kind == 3:
        return g.BlockGf(mesh=any_mesh(p, v % 6), gf_struct=[("up", 1), ("dn", 2)])
    if kind == 4:
        n1, n2 = [["up", "dn"], ["up", "up_dn"], [1, 0]][v // 6 % 3], [["a", "b", "c"], ["x", "dn_x", "y"]][v // 18 % 2][:1 + v % 3]
        return g.Block2Gf(n1, n2, [[any_gf(p, v, 10 * a + b) for b in range(len(n2))] for a in range(2)], name=["G2", ""][v % 2])
    if kind == 5:
        n = 2 + v % 4
        return p.load("triqs.dos").DOS(np.sort(rnd(mix(v, 85), n)), np.abs(rnd(mix(v, 86), n)), "dos")
    if kind == 6:
        return p.load("triqs.dos").DOSFromFunction(p.mods["userprog"].smooth, -1.0 - v % 2, 1.5, 2 + v % 9, "f")
    if kind == 7:
        d = make_object(sim, p, v, 5 + v % 2)
        return p.load("triqs.dos").HilbertTransform(d)
    if kind == 8:
        s = p.load("triqs.sumk").SumkDiscrete(2, ["a", "b"])
        s.resize_arrays(1 + v % 4)
        s.hopping[...] = rnd(mix(v, 87), *s.hopping.shape)
        s.bz_points[...] = rnd(mix(v, 88), *s.bz_points.shape)
        return s
    if kind == 9:
        return make_sumk_lattice(sim, p, 0, v, 1 + v % 3, 1 + v // 3 % 3, v // 9 % 4)[0]
    if kind == 10:
        return make_lattice(p, v, 1 + v % 3)[0]
    if kind == 11:
        m = any_mesh(p, v)
        return m
    if kind == 12:
        return g.MatsubaraFreq(v % 7 - 3, 2.0, ["Fermion", "Boson"][v % 2])
    if kind == 13:
        return [any_gf(p, v), {"S": any_gf(p, v + 1), "n": 3}, (any_gf(p, v // 2), None)]
    if kind == 14:
        return [list(any_mesh(p, v % 6))[0], g.Idx(v % 5)]
    x = make_object(sim, p, v, v % 5)
    return x * 2.0 if hasattr(x, "copy") else x


def digest(p, x):
    """what there is to see of an object"""
    g = p.load("triqs.gf")
    c = type(x).__name__
    if isinstance(x, g.Gf):
        return (c, x.name, digest(p, x.mesh), str(x.data.dtype), x.data.shape, x.data.tobytes(), x.target_shape, x.target_rank, x.rank)
    if isinstance(x, g.BlockGf):
        return (c, x.name, [(n, digest(p, b)) for n, b in x])
    if isinstance(x, g.Block2Gf):
        return (c, x.name, [(n, digest(p, b)) for n, b in x])
    if c == "MeshProduct":
        return (c, [digest(p, m) for m in x.components])
    if c.startswith("Mesh") and hasattr(x, "mesh_hash") and hasattr(x, "copy_from"):
        return (c, str(x._a[1:]) if c in ("MeshBrZone", "MeshCycLat") else str(x), len(x))
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (c, [digest(p, y) for y in x])
    if isinstance(x, dict):
        return (c, sorted((k, digest(p, y)) for k, y in x.items()))
    if c in ("DOS", "DOSFromFunction"):
        more = (x.x_min, x.x_max, x.function.__name__) if c != "DOS" else ()
        return (c, x.name, digest(p, np.asarray(x.eps, float)), digest(p, np.asarray(x.rho, float)), more)
    if c == "HilbertTransform":
        return (c, digest(p, x.dos), digest(p, x.rho_for_sum))
    if c.startswith("SumkDiscrete"):
        return (c, x.dim, x.orthogonal_basis, list(x.GFBlocIndices), [digest(p, a) for a in (x.hopping, x.bz_points, x.bz_weights, x.mu_pattern, x.overlap)], getattr(x, "method", ""), digest(p, x.SL) if hasattr(x, "SL") else "")
    if c == "TBLattice":
        return (c, x.ndim, x.n_orbitals, list(x.orbital_names), sorted((k, digest(p, t)) for k, t in x.hoppings.items()), digest(p, x.fourier(np.array([0.1] * x.ndim))))
    if c == "MatsubaraFreq":
        return (c, x.n, x.beta, x.statistic, complex(x))
    if c == "MeshPoint":
        return (c, x.index, x.data_index, digest(p, x.value), x.weight)
    if c == "Idx":
        return (c, digest(p, x.idx))
    return (c, x)


def own(p, x):
    """the object is one of this process's classes"""
    m = type(x).__module__
    return m not in p.mods or getattr(p.mods[m], type(x).__qualname__, type(x)) is type(x)


def arrived(sim, r, p, j, kind, x, want, how):
    got = digest(p, x)
    check(got == want, "object", "op %s: the %s (kind %d) %s arrives on rank %d as %s", j, want[0] if isinstance(want, tuple) else "?", kind, how, r, diff(want, got))
    check(own(p, x), "class", "op %s: %s has a class of another process", j, want[0])
    sim.state(j, r, kind)


def diff(a, b):
    if type(a) is not type(b):
        return "%r instead of %r" % (b, a)
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return "%d parts instead of %d: %.80r and %.80r" % (len(b), len(a), b, a)
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return "%.120r instead of %.120r" % (b, a)


def op_bcast(sim, r, p, j, v, kind, root):
    mpi = p.load("triqs.utility.mpi")
    root %= sim.nranks
    x = make_object(sim, p, v, kind)
    want = digest(p, x)
    y = x if r == root else make_object(sim, p, v + 1, kind) if v % 2 else None
    z = mpi.bcast(y, root=root) if root or v % 3 else mpi.bcast(y)
    arrived(sim, r, p, j, kind, z, want, "broadcast from rank %d" % root)
    if r == root:
        check(digest(p, x) == want, "sender", "op %s: the broadcast changes the object of the root", j)
    if kind in (0, 2, 3) and r != root:  # usable, and nobody else's
        z *= 2.0
        if kind == 0:
            check(close(z.data, 2.0 * x.data), "object", "op %s: calculating with the object received", j)


def op_send(sim, r, p, j, v, kind, src, dst):
    mpi = p.load("triqs.utility.mpi")
    src %= sim.nranks
    dst %= sim.nranks
    if src == dst:
        return
    x = make_object(sim, p, v, kind)
    want = digest(p, x)
    if r == src:
        mpi.send(x, dst)
        check(digest(p, x) == want, "sender", "op %s: sending changes the object", j)
    elif r == dst:
        arrived(sim, r, p, j, kind, mpi.recv(src), want, "sent by rank %d" % src)


def op_sum(sim, r, p, j, v, kind):
    """the sum of Green's functions of all ranks"""
    mpi = p.load("triqs.utility.mpi")
    g = p.load("triqs.gf")
    v0 = v - v % 8 + v % 7

    def part(q):
        if kind == 0:
            return any_gf(p, v0, 100 + q)
        if kind == 1:
            return g.BlockGf(name_list=["up", "dn"], block_list=[any_gf(p, v0, 100 + 2 * q + b) for b in range(2)])
        if kind == 2:
            return g.Block2Gf(["u", "d"], ["a"], [[any_gf(p, v0, 200 + 2 * q)], [any_gf(p, v0, 201 + 2 * q)]])
        return any_gf(p, v0, 300 + q)
    mine = part(r)
    before = digest(p, mine)

    def blocks(x):
        return [x.data] if isinstance(x, g.Gf) else [b.data for _, b in x]
    want = [sum(z) for z in zip(*[blocks(part(q)) for q in range(sim.nranks)])]
    if kind == 3:
        G = mine.copy()
        G << mpi.all_reduce(G)
        check(G.mesh == mine.mesh, "mesh", "op %s: mesh of the sum", j)
    else:
        G = mpi.all_reduce(mine)
        check(own(p, G), "class", "op %s: the sum has a class of another process", j)
    check(digest(p, mine) == before, "sender", "op %s: the reduction changes the argument", j)
    for a, b in zip(blocks(G), want):
        check(close(a, b), "sum", "op %s: the sum of the Green's functions of %d ranks is wrong on rank %d", j, sim.nranks, r)


def op_usebcast(sim, r, p, j, v, kind, root):
    """an object made on one rank only, broadcast, and used by all"""
    mpi = p.load("triqs.utility.mpi")
    root %= sim.nranks
    gfm = p.load("triqs.gf")
    mesh, zs = matsubara(p, v - v % 5 + 1)
    if kind == 0:
        n = 1 + v % 3
        sk, pts, ws, hops, no = make_sumk_lattice(sim, p, j, v, n, 1 + v // 3 % 2, v // 7 % 4)
        sk = mpi.bcast(sk if r == root else None, root)
        same_grid(sim, j, sk, pts, ws, hops)
        sumk_call(sim, r, p, j, v - v % 5 + 1, sk, v // 11 % 3, 0, 0, 0, ws, hops, pts, "sum of a broadcast object")
        return
    d = make_object(sim, p, v, 5 + v % 2)
    if kind == 1:
        ht = p.load("triqs.dos").HilbertTransform(d)
        ht = mpi.bcast(ht if r == root else None, root)
    else:
        ht = p.load("triqs.dos").HilbertTransform(mpi.bcast(d if r == root else None, root))
    Sigma = mpi.bcast(gf(p, mesh, sigma_data(v, 2, zs), "S") if r == root else None, root)
    G = ht(Sigma, 0.2)
    x = 0
    for e, q in zip(d.eps, dos_weights(d.eps, d.rho)):
        x = x + q * np.linalg.inv(np.array([(z + 0.2 - e) * np.identity(2) for z in zs]) - sigma_data(v, 2, zs))
    collect(sim, r, j, "Hilbert transform of a broadcast object", [G.data], [x])


# ------------------------------------------------------------------------------------------------ root finding
def op_dichotomy(sim, r, p, j, v, kind, digits, loops, coll):
    w = sim.world
    g = Rng(mix(v, 91))
    mod = p.load("triqs.utility.dichotomy")
    mpi = p.load("triqs.utility.mpi")
    a, b = 0.2 + 3 * g.uniform(), 2 * g.uniform() - 1
    prec = 10.0 ** -digits
    gentle = True
    if kind == 0:
        f, target = lambda x: a * x + b, 3 * g.uniform() - 1
    elif kind == 1:
        f, target = lambda x: 2 / (1 + math.exp(-a * (x - b))), 0.5 + g.uniform()
    elif kind == 2:
        f, target, gentle = lambda x: x ** 3 + 0.1 * x, 4 * g.uniform() - 2, False
    elif kind == 3:  # steps: exactly on a plateau, or between two
        f, target, gentle = lambda x: float(math.floor(2 * x)) / 2, g.pick([1.0, 0.5, 0.25, 0.0]), False
    elif kind == 4:  # the wrong direction
        f, target, gentle = lambda x: -a * x, 5.0, False
    else:  # out of reach
        f, target, gentle = lambda x: math.tanh(x), 1.5, False
    calls = []

    def fun(x):
        calls.append(x)
        y = f(x)
        sim.trace("f(%.17g)", x)
        if coll:
            check(len(calls) < loops + 60, "calls", "op %s: the function is called %d times", j, len(calls))
            n = sim.nranks
            y = mpi.all_reduce(y / 2 ** 3 if n == 8 else y / n) if n in (1, 2, 4, 8) else mpi.bcast(y)
            if coll == 2 and len(calls) < 12:
                mpi.barrier()
        return y
    x0 = g.pick([0.0, 0.5, -1.3, b])
    dx = g.pick([0.5, 1.0, -0.3, 0.1])
    loops = max(1, loops)
    kw = dict(max_loops=loops, verbosity=g.below(4))
    if v % 2:
        kw.update(x_name="mu", y_name="density")
    exact = v % 9 == 0
    if exact:  # the precision is met exactly
        target, prec = f(x0 - 3 * dx) if kind != 4 else f(x0), 0.0 if kind != 0 or v % 2 else prec
    x, y = mod.dichotomy(fun, x0, target, prec, dx, **kw)
    check((x is None) == (y is None), "result", "op %s: dichotomy returns (%r, %r)", j, x, y)
    check(len(calls) <= loops + 3, "calls", "op %s: %d calls with max_loops = %d", j, len(calls), loops)
    if x is not None:
        check(abs(y - target) <= prec, "precision", "op %s: y = %r for the target %r with the precision %g", j, y, target, prec)
        check(abs(f(x) - y) <= 1e-12 * (1 + abs(y)), "not-a-point", "op %s: f(%r) is %r, not %r", j, x, f(x), y)
        sim.probe("roots found")
    else:
        sim.probe("roots not found")
        best = min(abs(f(c) - target) for c in calls)
        check(best > prec, "found-and-lost", "op %s: the function was called at a point where it is within %g of the target, and none is returned", j, prec)
        check(len(calls) >= loops, "gave-up", "op %s: no solution after %d calls with max_loops = %d", j, len(calls), loops)
        if gentle and loops >= 1000 and not exact and digits <= 6:
            check(False, "not-found", "op %s: no solution of a simple equation in %d calls", j, len(calls))
    w.results.setdefault(j, {})[r] = repr((x, y, len(calls) if coll else 0)).encode()


def op_bisect(sim, r, p, j, v, kind, digits, loops, coll):
    g = Rng(mix(v, 92))
    mod = p.load("triqs.utility.bound_and_bisect")
    mpi = p.load("triqs.utility.mpi")
    a, b = (0.2 + 3 * g.uniform()) * g.pick([1, -1]), 2 * g.uniform() - 1
    f = (lambda x: a * x + b) if kind % 2 else (lambda x: math.tanh(0.3 * a * (x - b)) * 4)
    target = 2 * g.uniform() - 1
    tol = 10.0 ** -digits
    calls = []

    def fun(x):
        calls.append(x)
        y = f(x)
        return mpi.bcast(y) if coll else y
    x, y = mod.bound_and_bisect(fun, g.pick([0.0, 0.5, -1.3]), target, dx=g.pick([1.0, 0.3]), xtol=tol, verbosity=v % 2, maxiter=1000)
    root = (target - b) / a if kind % 2 else b + math.atanh(target / 4) / (0.3 * a)
    check(abs(x - root) <= 2 * tol + 1e-9, "precision", "op %s: x = %r, the root is %r, the tolerance %g", j, x, root, tol)
    check(abs(f(x) - y) <= 1e-12 * (1 + abs(y)), "not-a-point", "op %s: f(%r) is %r, not %r", j, x, f(x), y)
    sim.probe("roots found")
    sim.world.results.setdefault(j, {})[r] = repr((x, y, len(calls) if coll else 0)).encode()


# ------------------------------------------------------------------------------------------------ the ranks
OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


def rank_main(sim, r, p):
    for j, (_, name, a) in enumerate(sim.plan.ops):
        for k, f in sim.plan.faults:
            if k == "stall" and f[0] == r and f[1] == j:
                sim.fired("slow rank")
                sim.sleep(f[2] * 1000)
        sim.trace("op %s %s", j, name)
        OPS[name](sim, r, p, j, *a)
        sim.probe("op " + name)
        sim.world.ended[j, r] = True


def finish(sim):
    w = sim.world
    for j, c in w.results.items():
        check(len(c) == sim.nranks, "missing", "op %s: only %d ranks have a result", j, len(c))
        check(len(set(c.values())) == 1, "ranks-differ", "op %s: the result is not the same on all ranks", j)
    for j, (nk, what) in w.calls.items():
        check_work(sim, j, nk, what)
    for r in range(sim.nranks):
        left = sim.net.box.get(r, [])
        check(not left, "left-message", "%d messages to rank %d were never received", len(left), r)


if __name__ == "__main__":
    warnings.simplefilter("ignore")
    pysim.main(globals())
