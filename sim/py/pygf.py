"""Arithmetic, views, assignments, blocks, archives and text files of Green's functions in Python (Y07): histories of calls on a pool
of Green's functions that share data with each other, against a model of plain arrays; user functions that throw, disk errors."""
import copy, io, itertools, math, os, pickle, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import pysim, pytriqs
from pysim import Rng, SimProc, Violation, mix
from pyham import BufFile, check, num

NAME = "pygf"
MAXSTEPS = 400000
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "python")
OPS = ["new", "new", "copy", "view", "view", "element", "assign", "assign", "assign", "lazy", "lazy", "lazy", "inplace", "inplace", "inplace", "binary", "binary", "binary",
       "scalars", "matrices", "matrices", "invert", "invert", "unary", "lgr", "dyson", "delta", "legendre", "tail", "points", "freqs", "archive", "archive", "share", "sum", "text", "throw", "order",
       "bnew", "bnew", "bblock", "bassign", "bassign", "blazy", "binplace", "binplace", "bbinary", "bscalar", "bmatrix", "bselect", "bunary", "bmap", "barchive", "bbreak",
       "b2new", "b2assign", "b2inplace", "b2binary", "b2binary", "b2select"]


def generate(g, p):
    p.cfg.setdefault("ranks", g.pick([1, 1, 2, 2, 3]))
    p.cfg["buffer"] = g.pick([16, 100, 1000, 8192])
    p.cfg["meshes"], p.cfg["shapes"] = g.below(1 << 20), g.below(1 << 20)
    kind = [k for k in OPS if g.chance(0.6)] if g.chance(0.5) else OPS
    text = False
    for _ in range(g.pick([3, 6, 12, 25])):
        k = g.pick(kind or OPS)
        text = text or k == "text"
        p.op(0, k, g.below(1 << 30), g.below(1 << 20))
    if text and g.chance(0.7):
        p.fault("io", g.range(1, g.pick([6, 20, 60])), g.below(2))


class Refuse(Exception):
    """the model: this must be refused, with nothing changed"""


class Skip(Exception):
    """the model says nothing"""


class Thrown(Exception):
    """by the program's own function"""


def numpy_with_files(p):
    m = types.ModuleType("numpy")
    m.__dict__.update({k: v for k, v in np.__dict__.items()})

    def savetxt(path, X, *a, **k):
        b = io.StringIO()
        np.savetxt(b, X, *a, **k)
        f = p.builtins["open"](path, "w")
        try:
            for l in b.getvalue().splitlines(True):
                f.write(l)
        finally:
            f.close()

    def genfromtxt(path, *a, **k):
        f = p.builtins["open"](path, "r")
        return np.genfromtxt(io.StringIO(f.read()), *a, **k)
    m.savetxt, m.genfromtxt = savetxt, genfromtxt
    return m


def setup(sim):
    sim.posted = {}
    for r in range(sim.nranks):
        p = SimProc(sim, r, [PKG], env={"OMPI_COMM_WORLD_RANK": "0"} if sim.nranks > 1 else {})
        pytriqs.stand_ins(p)
        p.MPI.COMM_WORLD.proc = p
        p.builtins["open"] = lambda path, mode="r", *a, p=p, **k: BufFile(p, path, mode)
        sim.spawn("rank%d" % r, r, lambda r=r, p=p: rank_main(sim, r, p))


def rank_main(sim, r, p):
    R = Runner(sim, r, p)
    for j, (_, k, a) in enumerate(sim.plan.ops):
        sim.yield_()
        sim.trace("%s %r", k, a)
        g, R.d, R.j = Rng(mix(a[0], a[1], 5)), Rng(mix(a[0], a[1], 7, r)), j
        try:
            getattr(R, "op_" + k)(g)
            sim.probe("operations done")
        except Skip:
            sim.probe("operations the model says nothing of")
        except (Violation, OSError):
            raise
        except Exception as e:
            if type(e).__module__ in ("pysim", "__main__") and not isinstance(e, (Thrown, Refuse)):
                raise
            if isinstance(e, Refuse):
                raise RuntimeError("harness: an unexpected Refuse") from e
            raise Violation("fails", "%s fails: %s: %s" % (k, type(e).__name__, str(e)[:200]))
        R.compare(k)
        sim.state(j, sum(map(ord, k)), a[1] % 64, len(R.pool), r)


def finish(sim):
    pass


# ------------------------------------------------------------------------------------------------ the model
class M:
    """a Green's function: a key of its mesh and an array"""

    def __init__(self, key, data):
        self.key, self.data = key, data

    @property
    def rank(self):
        return len(self.key) if isinstance(self.key[0], tuple) else 1

    @property
    def shape(self):
        return self.data.shape[self.rank:]

    def copy(self):
        return M(self.key, self.data.copy())


def comps(key):
    return list(key) if isinstance(key[0], tuple) else [key]


def size(c):
    return 2 * c[3] - (c[2] != "Fermion") if c[0] == "ImFreq" else c[3]


def values(c):
    """values of the points of a mesh"""
    if c[0] == "ImFreq":
        f = c[2] == "Fermion"
        return [1j * math.pi * (2 * n + f) / c[1] for n in range(-c[3] + (not f), c[3])]
    if c[0] == "ReFreq":
        return [c[1] + (c[2] - c[1]) * i / (c[3] - 1) for i in range(c[3])]
    if c[0] == "ImTime":
        return [c[1] * i / (c[3] - 1) for i in range(c[3])]
    return [float(i) for i in range(c[3])]


FREQ = ("ImFreq", "ReFreq")


def freq(m):
    return m.rank == 1 and m.key[0] in FREQ


def square(m):
    return len(m.shape) == 2 and m.shape[0] == m.shape[1]


def const(m, x):
    """the constant function"""
    if not freq(m):
        raise Refuse
    if len(m.shape) not in (0, 2):
        raise Skip
    if isinstance(x, np.ndarray):
        if len(m.shape) == 0:
            raise Skip
        if x.shape != m.shape:
            raise Refuse
    elif len(m.shape) == 2:
        if not square(m):
            raise Refuse
        x = x * np.identity(m.shape[0])
    d = np.zeros(m.data.shape, complex)
    d[...] = x
    return M(m.key, d)


def scaled(m, f):
    """f(omega) times the identity"""
    if not freq(m):
        raise Refuse
    if not (m.shape == () or square(m)):
        raise Skip
    v = np.array([f(x) for x in values(m.key)], complex)
    return M(m.key, v if m.shape == () else v[:, None, None] * np.identity(m.shape[0]))


def semi(key, D, mu):
    def f(z):
        z = z + mu
        if key[0] == "ReFreq" and abs(z) < D:
            return 2 / D ** 2 * (z - 1j * math.sqrt(D * D - z * z))
        w = np.sqrt(complex(z) ** 2 - D * D)
        return min(2 * (z - w) / D ** 2, 2 * (z + w) / D ** 2, key=abs)
    return f


def flat(key, D):
    def f(z):
        if key[0] == "ReFreq":
            return math.log(abs((z + D) / (z - D))) / (2 * D) - (1j * math.pi / (2 * D) if abs(z) < D else 0)
        return np.log((z + D) / (z - D)) / (2 * D)
    return f


def addm(a, b, s):
    if isinstance(b, M):
        if a.key != b.key:
            raise Refuse
        if a.shape != b.shape:
            try:
                ok = np.broadcast_shapes(a.data.shape, b.data.shape) == a.data.shape
            except ValueError:
                ok = False
            if ok:
                raise Skip
            raise Refuse
        return M(a.key, a.data + s * b.data)
    if isinstance(b, np.ndarray):
        if len(a.shape) != 2:
            raise Refuse
        if not freq(a):
            raise Skip
        if b.shape != a.shape:
            raise Refuse
        return M(a.key, a.data + s * b)
    if len(a.shape) == 0:
        return M(a.key, a.data + s * b)
    if not square(a) or not freq(a):
        raise Skip
    return M(a.key, a.data + s * b * np.identity(a.shape[0]))


def mesh_of_product(x, y):
    if len(comps(x)) != len(comps(y)) or isinstance(x[0], tuple) != isinstance(y[0], tuple):
        raise Refuse
    r = []
    for a, b in zip(comps(x), comps(y)):
        if a[0] == b[0] == "ImTime":
            if (a[1], a[3]) != (b[1], b[3]):
                raise Refuse
            r.append(("ImTime", a[1], "Boson" if a[2] == b[2] else "Fermion", a[3]))
        elif a != b:
            raise Refuse
        else:
            r.append(a)
    return tuple(r) if isinstance(x[0], tuple) else r[0]


def mulm(a, b, inplace=False):
    if isinstance(a, np.ndarray):
        if len(b.shape) != 2 or a.ndim != 2 or a.shape != (b.shape[0],) * 2:
            raise Refuse
        return M(b.key, a @ b.data)
    if isinstance(b, np.ndarray):
        if len(a.shape) != 2 or b.ndim != 2 or b.shape != (a.shape[1],) * 2:
            raise Refuse
        return M(a.key, a.data @ b)
    if not isinstance(a, M):
        return M(b.key, a * b.data)
    if not isinstance(b, M):
        return M(a.key, a.data * b)
    if inplace:
        if any(c[0] == "ImTime" for c in comps(a.key)):
            raise Skip
        if a.key != b.key:
            raise Refuse
        key = a.key
    else:
        key = mesh_of_product(a.key, b.key)
    na, nb = len(a.shape), len(b.shape)
    if na == nb == 2:
        if a.shape[1] != b.shape[0] or inplace and not square(b):
            raise Refuse
        return M(key, a.data @ b.data)
    if na == nb == 0:
        return M(key, a.data * b.data)
    if na == 2 and nb == 0:
        return M(key, a.data * b.data[..., None, None])
    if na == 0 and nb == 2 and not inplace:
        return M(key, a.data[..., None, None] * b.data)
    raise Refuse


def invm(a):
    if len(a.shape) == 0:
        if np.min(np.abs(a.data)) < 1e-3:
            raise Skip
        return M(a.key, 1 / a.data)
    if len(a.shape) != 2:
        raise Refuse
    if not square(a):
        raise Refuse
    if not np.iscomplexobj(a.data):
        raise Skip
    s = np.linalg.svd(a.data, compute_uv=False)
    if np.min(s) < 1e-3 * max(1, np.max(s)):
        raise Skip
    return M(a.key, np.linalg.inv(a.data))


def trm(a):
    if a.rank != 1 or len(a.shape) != 2:
        raise Refuse
    return M(a.key, np.swapaxes(a.data, 1, 2).copy())


class Runner:
    def __init__(self, sim, r, p):
        self.sim, self.r, self.p = sim, r, p
        self.G = p.load("triqs.gf")
        self.T = p.load("triqs.gf.tools")
        self.T.np = numpy_with_files(p)
        self.pool = []      # [Gf, M]
        self.blocks = []    # [BlockGf, names, [M]]
        self.blocks2 = []   # [Block2Gf, names1, names2, [[M]]]
        g = Rng(mix(sim.plan.cfg["meshes"], 3))
        S = g.pick(["Fermion", "Fermion", "Boson"])
        b, n = g.pick([1.0, 2.5, 10.0]), g.range(2, 4)
        k = g.below(7)
        one = [("ImFreq", b, S, n), ("ReFreq", -2.0, 2.5, 2 * n), ("ImTime", b, S, n + 3), ("Legendre", b, S, n), ("ImFreq", b, "Fermion", n), ("ImFreq", b, "Fermion", n), None][k]
        if one is None:
            one = (("ImFreq", b, S, n), g.pick([("ReFreq", -1.0, 1.0, n), ("ImTime", b, "Boson", n), ("ImFreq", b, "Boson", n)]))
        def other(c):
            o = g.below(4)
            if o == 0:
                return (c[0], c[1] - 0.5, c[2], c[3])     # same size, other values
            if o == 1:
                return (c[0], c[1], c[2], c[3] + 1)
            if o == 2 and c[0] != "ReFreq":
                return (c[0], c[1], "Boson" if c[2] == "Fermion" else "Fermion", c[3])
            return ("Legendre" if c[0] != "Legendre" else "ImTime", b, S, size(c))
        two = tuple([other(c) if i == 0 else c for i, c in enumerate(one)]) if isinstance(one[0], tuple) else other(one)
        self.keys = [one, one, one, one, two]
        g = Rng(mix(sim.plan.cfg["shapes"], 3))
        a = g.pick([1, 2, 2, 3, 3])
        self.shapes = [(a, a)] * 4 + [g.pick([(), (), (2,), (a, a + 1), (a + 1, a), (a + 1, a + 1), (2, 1, 2)])] * 2

    # ---- helpers
    def mesh(self, key):
        if isinstance(key[0], tuple):
            return self.G.MeshProduct(*[self.mesh(c) for c in key])
        return getattr(self.G, "Mesh" + key[0])(*key[1:])

    def data(self, key, shape, real=False):
        d = self.d
        sh = tuple(map(size, comps(key))) + tuple(shape)
        a = np.array([num(d) + (0 if real else 1j * num(d)) for _ in range(int(np.prod(sh)))]).reshape(sh)
        if len(shape) == 2 and shape[0] == shape[1]:
            a = a + 4 * np.identity(shape[0])
        elif not shape:
            a = a + 4
        return a

    def matrix(self, sh):
        d = self.d
        m = np.array([num(d) + (1j * num(d) if d.chance(0.7) else 0) for _ in range(int(np.prod(sh)))]).reshape(sh)
        return m if d.chance(0.8) else m.real.copy()

    def scalar(self, g, z=True):
        k = g.below(5)
        if k == 0:
            return g.pick([1, 2, -3])
        if k == 1:
            return round(num(g), 3) or 1.5
        if k == 2 and z:
            return complex(round(num(g), 3) or 1.5, num(g))
        if k == 3:
            return np.float64(round(num(g), 3) or 0.5)
        return np.complex128(1.5 + 1j * num(g)) if z else 0.5

    def add(self, gf, m):
        self.pool.append([gf, m])
        if len(self.pool) > 8:
            self.pool.pop(0)

    def make(self, g, key=None, shape=None):
        key = g.pick(self.keys) if key is None else key
        shape = g.pick(self.shapes) if shape is None else shape
        d = self.data(key, shape)
        if g.chance(0.5):
            x = self.G.Gf(mesh=self.mesh(key), data=d.copy())
        else:
            x = self.G.Gf(mesh=self.mesh(key), target_shape=list(shape))
            check(x.data.shape == d.shape and not np.any(x.data), "new", "a new Green's function is not zero, or of shape %r", x.data.shape)
            x.data[...] = d
        return x, M(key, d)

    def any(self, g, cplx=True, ok=None):
        c = [e for e in self.pool if (not cplx or np.iscomplexobj(e[1].data)) and (ok is None or ok(e[1]))]
        if not cplx and g.chance(0.4):
            c = [e for e in c if not np.iscomplexobj(e[1].data)] or c
        if not c or g.chance(0.05):
            x, m = self.make(g)
            self.add(x, m)
            if ok is None or ok(m):
                return x, m
            raise Skip
        return g.pick(c)

    def like(self, g, m):
        """a partner, mostly one that fits"""
        c = [e for e in self.pool if e[1].key == m.key and e[1].shape == m.shape and np.iscomplexobj(e[1].data)]
        if g.chance(0.1):  # as many points, of other values
            c = comps(m.key)
            i = g.below(len(c))
            c[i] = (c[i][0], c[i][1] - 0.25) + c[i][2:]
            x, n = self.make(g, tuple(c) if isinstance(m.key[0], tuple) else c[0], m.shape)
            self.add(x, n)
            return x, n
        if c and g.chance(0.7):
            return g.pick(c)
        if g.chance(0.5):
            x, n = self.make(g, m.key, m.shape)
            self.add(x, n)
            return x, n
        return self.any(g)

    def is_mesh(self, mesh, key):
        if isinstance(key[0], tuple):
            return type(mesh).__name__ == "MeshProduct" and len(mesh.components) == len(key) and all(self.is_mesh(a, b) for a, b in zip(mesh.components, key))
        return type(mesh).__name__ == "Mesh" + key[0] and tuple(mesh._a) == tuple(key[1:])

    def same(self, x, m, what):
        check(type(x).__name__ == "Gf", "type", "%s: a %s, not a Green's function", what, type(x).__name__)
        check(self.is_mesh(x.mesh, m.key), "mesh", "%s: the mesh is %s, not %r", what, x.mesh, m.key)
        check(x.data.shape == m.data.shape and tuple(x.target_shape) == tuple(m.shape) and x.target_rank == len(m.shape) and x.rank == m.rank, "shape", "%s: the data has shape %r (target %r), not %r", what, x.data.shape, x.target_shape, m.data.shape)
        if m.data.size:
            s = 1 + np.max(np.abs(m.data))
            e = np.max(np.abs(x.data - m.data))
            check(e <= 1e-9 * s, "value", "%s: the values differ by %g", what, e)

    def compare(self, what):
        seen = 0
        for x, m in self.pool:
            self.same(x, m, "after " + what)
        for b, names, ms in self.blocks:
            check([n for n in b.indices] == list(names) and len(b) == len(ms) and b.n_blocks == len(ms), "blocks", "after %s: the blocks are %r, not %r", what, list(b.indices), names)
            for (n, x), nm, m in zip(b, names, ms):
                check(n == nm and b[n] is x, "blocks", "after %s: block %r is another one", what, n)
                self.same(x, m, "after %s, block %s" % (what, n))
        for b, n1, n2, ms in self.blocks2:
            check(list(b.indices1) == list(n1) and list(b.indices2) == list(n2), "blocks", "after %s: the blocks are others", what)
            for i, a in enumerate(n1):
                for j, c in enumerate(n2):
                    self.same(b[a, c], ms[i][j], "after %s, block %s,%s" % (what, a, c))
        for x, m in self.pool:
            np.copyto(m.data, x.data)
        for b, names, ms in self.blocks:
            for (n, x), m in zip(b, ms):
                np.copyto(m.data, x.data)
        for b, n1, n2, ms in self.blocks2:
            for (n, x), m in zip(b, itertools.chain.from_iterable(ms)):
                np.copyto(m.data, x.data)
        # values that grow are scaled down
        for x, m in self.pool + [e for b, _, ms in self.blocks for e in zip([x for _, x in b], ms)] + [e for b, _, _, ms in self.blocks2 for e in zip([x for _, x in b], itertools.chain.from_iterable(ms))]:
            s = np.max(np.abs(m.data), initial=0)
            if not s < 1e3:
                v = 1 / s if np.isfinite(s) else 0.0
                x.data[...] = x.data * v if v else 1.0
                m.data[...] = x.data

    def run(self, f, model, what, maybe=False):
        """f() against model(): both, or refused with nothing changed; returns (result, model's result) or None"""
        try:
            want = model()
        except Refuse:
            try:
                f()
            except (Violation, OSError):
                raise
            except Exception:
                self.sim.probe("operations refused")
                return None
            raise Violation("accepted", "%s is accepted" % what)
        try:
            return f(), want
        except (Violation, OSError):
            raise
        except Exception as e:
            if maybe:
                return None
            raise Violation("fails", "%s fails: %s: %s" % (what, type(e).__name__, str(e)[:200]))

    def new_result(self, f, model, what, maybe=False):
        r = self.run(f, model, what, maybe)
        if r:
            self.same(r[0], r[1], what)
            self.fresh(r[0], what)
            r[1].data = r[1].data.astype(r[0].data.dtype)
            self.add(r[0], r[1])
        return r

    def fresh(self, x, what):
        for y, _ in self.pool:
            check(y is not x and not np.shares_memory(x.data, y.data), "aliasing", "%s shares its data with another Green's function", what)

    def change(self, x, m, f, model, what, maybe=False):
        """an operation in place"""
        r = self.run(f, model, what, maybe)
        if r:
            m.data[...] = r[1].data

    # ---- Green's functions
    def op_new(self, g):
        x, m = self.make(g)
        self.add(x, m)
        if g.chance(0.2):  # refused
            k, sh = m.key, tuple(m.data.shape)
            bad = g.below(3)
            if bad == 0:
                f = lambda: self.G.Gf(mesh=self.mesh(k), data=np.zeros((sh[0] + 1,) + sh[1:], complex))
            elif bad == 1:
                f = lambda: self.G.Gf(mesh=self.mesh(k), data=m.data.copy(), target_shape=list(m.shape) or [1])
            else:
                f = lambda: self.G.Gf(mesh=self.mesh(k), target_shape=[0, 1])

            def model():
                raise Refuse
            self.run(f, model, "a Green's function of data that does not fit")

    def op_copy(self, g):
        x, m = self.any(g, cplx=False)
        self.new_result(lambda: x.copy(), lambda: m.copy(), "a copy")

    def op_view(self, g):
        x, m = self.any(g)
        k = g.below(4)
        full = (slice(None),) * m.rank
        if k == 0:
            y, n = (x.real, M(m.key, m.data.real)) if g.chance(0.5) else (x.imag, M(m.key, m.data.imag))
        elif k == 1 and m.rank > 1:
            i = g.below(m.rank)
            c = comps(m.key)
            if m.rank != 2:
                raise Skip
            j = g.below(size(c[i]))
            pt = self.point(g, x.mesh.components[i], c[i], j)
            key = tuple(pt if q == i else slice(None) for q in range(2))
            y, n = x[key], M(c[1 - i], m.data[tuple(j if q == i else slice(None) for q in range(2))])
        elif k == 2 and len(m.shape) >= 1:
            key = tuple(g.below(s) for s in m.shape)
            y, n = (x[key] if len(key) > 1 or g.chance(0.5) else x[key[0]]), M(m.key, m.data[full + key])
        else:
            if not m.shape:
                raise Skip
            key = []
            for s in m.shape:
                a = g.below(s)
                key.append(slice(a, g.range(a + 1, s)) if g.chance(0.8) else slice(None, None, 2))
            key = tuple(key)
            if len(key) == 1 and key[0] == slice(None):
                raise Skip
            y, n = x[key], M(m.key, m.data[full + key])
        self.same(y, n, "a view")
        check(np.shares_memory(y.data, x.data), "aliasing", "a view does not share the data")
        self.add(y, n)

    def point(self, g, mesh, c, j):
        """the point of number j, in one of the ways to write it"""
        if g.chance(0.5):
            for i, w in enumerate(mesh):
                if i == j:
                    return w
        first = (-c[3] + (c[2] != "Fermion")) if c[0] == "ImFreq" else 0
        return self.G.Idx(j + first)

    def op_element(self, g):
        x, m = self.any(g)
        js = [g.below(size(c)) for c in comps(m.key)]
        if m.rank == 1:
            key = self.point(g, x.mesh, m.key, js[0])
        else:
            key = tuple(self.point(g, y, c, j) for y, c, j in zip(x.mesh.components, comps(m.key), js))
        check(np.allclose(x[key], m.data[tuple(js)], rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(m.data)))), "element", "the element of a mesh point is another one")
        v = self.matrix(m.shape) if m.shape else complex(num(g), num(g))
        x[key] = v
        m.data[tuple(js)] = v
        if m.rank == 1 and g.chance(0.5):  # a point of another mesh
            o = [k for k in self.keys if k != m.key and not isinstance(k[0], tuple)]
            if o and m.key[0] != "Legendre":
                w = next(iter(self.mesh(o[0])))

                def model():
                    raise Refuse
                self.run(lambda: x[w], model, "a point of another mesh")

                def put():
                    x[w] = 0
                self.run(put, model, "a point of another mesh, assigned")

    def op_assign(self, g):
        x, m = self.any(g, cplx=False)
        y, n = self.like(g, m) if np.iscomplexobj(m.data) else self.any(g, cplx=False)
        if g.chance(0.2) and np.iscomplexobj(m.data):
            v = self.scalar(g) if g.chance(0.6) else self.matrix(m.shape if g.chance(0.7) and len(m.shape) == 2 else (2, 3))
            self.put(g, x, m, v, lambda: const(m, v), "a constant")
            return

        def model():
            if x is y:
                return m
            if n.key != m.key or n.shape != m.shape:
                raise Refuse
            if np.iscomplexobj(n.data) and not np.iscomplexobj(m.data):
                raise Skip
            return M(m.key, n.data.copy())
        self.put(g, x, m, y, model, "a Green's function")

    def put(self, g, x, m, v, model, what):
        k = g.below(3)
        if k == 0:
            def f():
                x[:] = v
        elif k == 1 and isinstance(v, self.G.Gf) and v is not x and v.mesh == x.mesh:
            f = lambda: x.copy_from(v)
        else:
            def f():
                check((x << v) is x, "assign", "<< does not return its left side")
        self.change(x, m, f, model, "an assignment of " + what)

    def expr(self, g, x, m, depth):
        """(lazy expression or Gf, model)"""
        D = self.G
        k = g.below(10)
        if depth == 0 or k < 2:
            t = g.below(6)
            if t == 0:
                c = [e for e in self.pool if e[1].key == m.key and e[1].shape == m.shape and np.iscomplexobj(e[1].data)]
                if c:
                    y, n = g.pick(c)
                    return y, n.copy()
            if m.key[0] == "ImFreq" and m.key[2] == "Boson":
                t = 5
            if t == 1 or t == 2:
                b, mu = 0.37 + 2 * g.uniform(), g.pick([0.0, 0.0, num(g)])
                e = D.SemiCircular(b, chem_potential=mu) if mu or g.chance(0.5) else D.SemiCircular(b)
                return e, scaled(m, semi(m.key, b, mu))
            if t == 3:
                b = 0.37 + 2 * g.uniform() + 1e-5
                return (D.Flat if g.chance(0.5) else D.Wilson)(b), scaled(m, flat(m.key, b))
            if t == 4:
                a, b = self.matrix(m.shape) if m.shape else 1.0, num(g)
                F = self.p.load("triqs.gf.descriptors").Function
                if not freq(m):
                    raise Skip
                v = values(m.key)
                return F(lambda w: a / (complex(w) - b - 3j)), M(m.key, np.array([a / (z - b - 3j) for z in v]))
            return (D.iOmega_n if g.chance(0.7) else D.Omega), scaled(m, lambda z: z)
        a, ma = self.expr(g, x, m, depth - 1)
        lz = not isinstance(a, self.G.Gf)
        if k < 4:
            b, mb = self.expr(g, x, m, depth - 1)
            s = g.pick([1, -1])
            return (a + b if s == 1 else a - b), addm(ma, mb, s)
        if k == 4:
            s = self.scalar(g)
            s = complex(s) if isinstance(s, np.generic) else s
            o = g.below(4)
            if len(m.shape) == 2 and not square(m):
                raise Skip
            return (a + s, a - s, s + a, s - a)[o], (addm(ma, s, 1), addm(ma, s, -1), addm(ma, s, 1), M(m.key, -addm(ma, s, -1).data))[o]
        if k == 5 and len(m.shape) == 2:
            v = self.matrix(m.shape)
            if g.chance(0.5):
                return a + v, addm(ma, v, 1)
            if lz and square(m):
                return a * v, mulm(ma, v)
            return a - v, addm(ma, v, -1)
        if k == 6:
            s = self.scalar(g)
            s = complex(s) if isinstance(s, np.generic) else s
            o = g.below(3)
            return (s * a, a * s, a / s)[o], M(m.key, (ma.data * s, ma.data * s, ma.data / s)[o])
        if k == 7 and lz:
            b, mb = self.expr(g, x, m, depth - 1)
            return a * b, mulm(ma, mb)
        if k == 8:
            v = invm(ma)
            return self.G.inverse(a), v
        if k == 9:
            if len(m.shape) == 2 and g.chance(0.5):
                return self.G.transpose(a), trm(ma)
            return self.G.conjugate(a), M(m.key, np.conj(ma.data))
        return a, ma

    def op_lazy(self, g):
        x, m = self.any(g)
        if not freq(m):
            def model():
                raise Refuse
            e = g.pick([self.G.iOmega_n, self.G.SemiCircular(1.0), self.G.iOmega_n + 1])
            self.change(x, m, lambda: x << e, model, "a function of frequency on another mesh")
            return
        if not (m.shape == () or square(m)):
            raise Skip
        try:
            e, v = self.expr(g, x, m, g.range(0, 3))
        except Refuse:
            raise Skip
        if g.chance(0.3) and type(e).__name__ == "LazyExpr":
            c = e.copy()
            if g.chance(0.5):
                e += 1  # the copy stays
            e = c
        if g.chance(0.2):  # and the same with a name for a part of it
            str(e)
        if g.chance(0.2) and m.shape and m.shape[0] > 1:
            i = g.below(m.shape[0])
            y, n = x[i:i + 1, i:i + 1], M(m.key, m.data[:, i:i + 1, i:i + 1])
            z = self.G.iOmega_n + 2
            want = np.array(values(m.key)) + 2

            def f():
                x[i:i + 1, i:i + 1] = z
            f()
            n.data[...] = want[:, None, None]
            return
        self.put(g, x, m, e, lambda: v, "an expression")

    def op_throw(self, g):
        """the program's function fails half way"""
        x, m = self.any(g, ok=freq)
        k = [0]
        at = g.below(x.data.shape[0])
        F = self.p.load("triqs.gf.descriptors").Function

        def f(w):
            k[0] += 1
            if k[0] > at:
                raise Thrown
            return 7.0
        e = F(f)
        if g.chance(0.5):
            e = e + 1
        try:
            x << e
        except Thrown:
            self.sim.fired("function of the program throws")
            return
        raise Violation("swallowed", "an exception of the program's function is lost")

    def op_inplace(self, g):
        x, m = self.any(g)
        y, n = self.like(g, m)
        o = g.below(4)
        if o >= 2 and g.chance(0.2):
            c = [e for e in self.pool if e[1].key == m.key and e[1].shape == () and np.iscomplexobj(e[1].data)]
            if c:
                y, n = g.pick(c)
        if np.shares_memory(m.data, n.data) and m is not n and o >= 2:
            raise Skip

        def f():
            z = x
            if o == 0:
                z += y
            elif o == 1:
                z -= y
            elif o == 2:
                z *= y
            else:
                z @= y
            check(z is x, "inplace", "an operation in place gives another object")
        self.change(x, m, f, lambda: (addm(m, n, 1) if o == 0 else addm(m, n, -1) if o == 1 else mulm(m, n, True)), "x %s= y" % "+-*@"[o])

    def op_binary(self, g):
        x, m = self.any(g)
        y, n = self.like(g, m)
        if g.chance(0.3):
            y, n = self.any(g)
        o = g.below(4)
        f = (lambda: x + y, lambda: x - y, lambda: x * y, lambda: x @ y)[o]
        self.new_result(f, lambda: (addm(m, n, 1) if o == 0 else addm(m, n, -1) if o == 1 else mulm(m, n)), "x %s y" % "+-*@"[o])

    def op_order(self, g):
        """rectangular matrices"""
        a, b, c = (g.range(1, 3) for _ in range(3))
        k = self.keys[0]
        x, m = self.make(g, k, (a, b))
        y, n = self.make(g, k, (b if g.chance(0.7) else c, c))
        self.add(x, m)
        self.add(y, n)
        self.new_result(lambda: x * y if g.chance(0.5) else x @ y, lambda: mulm(m, n), "a product of rectangular ones")

    def op_scalars(self, g):
        x, m = self.any(g, cplx=g.chance(0.8))
        cplx = np.iscomplexobj(m.data)
        s = self.scalar(g, cplx)
        o = g.below(11)
        if not cplx and o < 5:
            o = 6
        if o == 0:
            self.new_result(lambda: x + s, lambda: addm(m, s, 1), "x + scalar")
        elif o == 1:
            self.new_result(lambda: s + x, lambda: addm(m, s, 1), "scalar + x")
        elif o == 2:
            self.new_result(lambda: x - s, lambda: addm(m, s, -1), "x - scalar")
        elif o == 3:
            self.new_result(lambda: s - x, lambda: M(m.key, -addm(m, s, -1).data), "scalar - x")
        elif o == 4:
            def f():
                z = x
                z += s
                z -= 2 * s
            self.change(x, m, f, lambda: addm(m, s, -1), "x += scalar")
        elif o == 5:
            self.new_result(lambda: x * s, lambda: mulm(m, s), "x * scalar")
        elif o == 6:
            self.new_result(lambda: s * x, lambda: mulm(s, m), "scalar * x")
        elif o == 7:
            self.new_result(lambda: x / s, lambda: M(m.key, m.data / s), "x / scalar")
        elif o == 8:
            self.new_result(lambda: -x, lambda: M(m.key, -m.data), "-x")
        elif o == 9:
            def f():
                z = x
                z *= s
            self.change(x, m, f, lambda: mulm(m, s), "x *= scalar")
        else:
            def f():
                z = x
                z /= s
            self.change(x, m, f, lambda: M(m.key, m.data / s), "x /= scalar")

    def op_matrices(self, g):
        x, m = self.any(g, ok=lambda m: len(m.shape) == 2 or g.chance(0.2))
        sh = m.shape if len(m.shape) == 2 else (2, 2)
        k = g.below(6)
        if k == 0:
            v = self.matrix((sh[1], g.range(1, 3)))
        elif k == 1:
            v = self.matrix((g.range(1, 3), sh[0]))
        elif k == 2:
            v = self.matrix((sh[0],) * g.pick([1, 3]))
        elif k == 3:
            v = self.matrix((sh[1],) * 2)
        else:
            v = self.matrix((sh[0],) * 2)
        keep = v.copy()
        o = g.below(7)
        if o < 2 and v.ndim != 2:
            raise Skip
        if o == 0:
            self.new_result(lambda: x + v, lambda: addm(m, v, 1), "x + matrix")
        elif o == 1:
            self.new_result(lambda: v - x if square(m) else x - v, lambda: M(m.key, -addm(m, v, -1).data) if square(m) else addm(m, v, -1), "matrix - x")
        elif o == 2:
            self.new_result(lambda: x * v, lambda: mulm(m, v), "x * matrix")
        elif o == 3:
            self.new_result(lambda: v * x, lambda: mulm(v, m), "matrix * x")
        elif o == 4:
            self.new_result(lambda: x @ v, lambda: mulm(m, v), "x @ matrix")
        elif o == 5:
            self.new_result(lambda: v @ x, lambda: mulm(v, m), "matrix @ x")
        else:
            def f():
                z = x
                z *= v
            self.change(x, m, f, lambda: mulm(m, v), "x *= matrix")
        check(np.array_equal(keep, v), "argument", "a matrix of the program is changed")

    def op_invert(self, g):
        x, m = self.any(g)
        if g.chance(0.5):
            self.new_result(lambda: x.inverse() if g.chance(0.5) else self.G.inverse(x), lambda: invm(m), "the inverse", m.rank > 1)
        else:
            self.change(x, m, lambda: x.invert(), lambda: invm(m), "invert", m.rank > 1)

    def op_unary(self, g):
        x, m = self.any(g, cplx=g.chance(0.8))
        k = g.below(4)
        if k == 0:
            self.new_result(lambda: x.transpose() if g.chance(0.5) else self.G.transpose(x), lambda: trm(m), "the transpose")
        elif k == 1:
            self.new_result(lambda: x.conjugate() if g.chance(0.5) else self.G.conjugate(x), lambda: M(m.key, np.conj(m.data)), "the conjugate")
        elif k == 2 and g.chance(0.3):
            x.zero()
            m.data[...] = 0
        else:
            check(list(x.target_indices) == list(itertools.product(*[range(s) for s in m.shape])), "indices", "the indices of the target are others")
            check(x[:] is x, "indices", "x[:] is not x")

    def op_lgr(self, g):
        x, m = self.any(g, ok=lambda m: m.rank == 1 and len(m.shape) == 2)
        a, b = m.shape
        c, d = g.range(1, 3), g.range(1, 3)
        y, n = self.make(g, m.key, (c, d))
        L, R = self.matrix((a, c)), self.matrix((d, b))
        L, R = (np.asfortranarray(L) if g.chance(0.3) else L), (np.asfortranarray(R) if g.chance(0.3) else R)
        bad = g.chance(0.2)
        if bad:
            if g.chance(0.5):
                L = self.matrix((a + 1, c) if g.chance(0.5) else (a, c + 1))
            else:
                R = self.matrix((d, b + 1) if g.chance(0.5) else (d + 1, b))

        def model():
            if bad:
                raise Refuse
            return M(m.key, L @ n.data @ R)
        kl, kr = L.copy(), R.copy()
        self.change(x, m, lambda: x.from_L_G_R(L, y, R), model, "from_L_G_R")
        self.same(y, n, "after from_L_G_R")
        check(np.array_equal(L, kl) and np.array_equal(R, kr), "argument", "a matrix of the program is changed")

    def op_dyson(self, g):
        x, m = self.any(g, ok=lambda m: m.key == self.keys[0] and (square(m) or m.shape == ()))
        y, n = self.make(g, m.key, m.shape)
        k = g.below(4)
        inv = lambda q: invm(q)
        if k == 0:
            self.new_result(lambda: self.G.dyson(Sigma_iw=x, G_iw=y), lambda: inv(M(m.key, m.data + inv(n).data)), "dyson for G0", m.rank > 1)
        elif k == 1:
            self.new_result(lambda: self.G.dyson(G0_iw=x, Sigma_iw=y), lambda: inv(M(m.key, inv(m).data - n.data)), "dyson for G", m.rank > 1)
        elif k == 2:
            self.new_result(lambda: self.G.dyson(G0_iw=x, G_iw=y), lambda: M(m.key, inv(m).data - inv(n).data), "dyson for Sigma", m.rank > 1)
        else:
            def model():
                raise Refuse
            self.run(lambda: self.G.dyson(G_iw=x), model, "dyson of one")
        self.same(y, n, "after dyson")

    def op_delta(self, g):
        k = g.pick([k for k in self.keys if not isinstance(k[0], tuple)] or [None])
        if k is None or k[0] not in ("ImFreq", "ImTime") or k[0] == "ImFreq" and k[2] == "Boson":
            k = ("ImFreq", 3.0, "Fermion", 3) if g.chance(0.5) else ("ImTime", 3.0, "Fermion", 6)
        mesh = self.mesh(k)
        nb = g.range(1, 3)

        def one():
            n = g.range(1, 3)
            return self.matrix((n, nb)), [num(g) for _ in range(nb)]

        def want(V, e):
            z = np.array(values(k))
            e = np.array(e)
            f = 1 / (z[:, None] - e) if k[0] == "ImFreq" else -np.exp(-z[:, None] * e) / (1 + np.exp(-k[1] * e))
            return M(k, np.einsum("kj,wj,lj->wkl", V, f, V.conj()))
        lst = lambda e: np.array(e) if g.chance(0.5) else list(e)
        D = self.p.load("triqs.gf.tools").make_delta
        if g.chance(0.6):
            V, e = one()
            self.new_result(lambda: D(V, lst(e), mesh), lambda: want(V, e), "make_delta")
        else:
            l = [one() for _ in range(g.range(1, 3))]
            names = ["b%d" % i for i in range(len(l))] if g.chance(0.5) else None
            b = D([V for V, _ in l], [lst(e) for _, e in l], mesh, names) if names else D([V for V, _ in l], [lst(e) for _, e in l], mesh)
            check(list(b.indices) == (names or [str(i) for i in range(len(l))]), "blocks", "make_delta: blocks %r", list(b.indices))
            for (n, x), (V, e) in zip(b, l):
                self.same(x, want(V, e), "make_delta")

    def op_legendre(self, g):
        n = g.range(3, 8)
        k = ("ImTime", g.pick([1.0, 5.0]), g.pick(["Fermion", "Boson"]), n)
        x, m = self.make(g, k, (g.range(1, 3),) * 2)
        o = g.range(1, n)
        h = (m.data + np.conj(np.swapaxes(m.data, 1, 2))) / 2
        t = 2 * np.array(values(k)) / k[1] - 1
        P = np.polynomial.legendre.legvander(t, o - 1)
        c = np.linalg.lstsq(P, h.reshape(n, -1), rcond=None)[0].reshape((o,) + h.shape[1:])
        c = c * k[1] / np.sqrt(2 * np.arange(o) + 1)[:, None, None]
        y = self.p.load("triqs.gf.tools").fit_legendre(x, o)
        want = M(("Legendre", k[1], k[2], o), c)
        check(self.is_mesh(y.mesh, want.key), "mesh", "fit_legendre: mesh %s", y.mesh)
        check(np.allclose(y.data, c, rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(c)))), "value", "fit_legendre gives other coefficients")
        self.same(x, m, "after fit_legendre")

    def op_tail(self, g):
        x, m = self.any(g)
        n = g.range(-1, 5)
        f = self.p.load("triqs.gf.tools").make_zero_tail
        ok = m.rank == 1 and m.key[0] != "Legendre"

        def model():
            if not ok:
                raise Refuse
            return max(n, 1)
        r = self.run(lambda: f(x, n), model, "make_zero_tail")
        if r:
            check(r[0].shape == (r[1],) + tuple(m.shape) and not np.any(r[0]), "tail", "make_zero_tail: shape %r", r[0].shape)

    def op_points(self, g):
        """arithmetic of mesh points"""
        for key in comps(self.keys[0]):
            mesh, v = self.mesh(key), values(key)
            pts = list(mesh)
            check(len(pts) == len(v), "points", "%d points, not %d", len(pts), len(v))
            i, j = g.below(len(v)), g.below(len(v))
            a, b, x, y, s = pts[i], pts[j], v[i], v[j], num(g) + 3
            c = complex
            for n, (r, w) in enumerate([(a + b, x + y), (a - b, x - y), (a * s, x * s), (s * a, s * x), (a + s, x + s), (s + a, s + x), (s - a, s - x), (a - s, x - s), (-a, -x), (a / s, x / s), (c(a), x), (a.imag, c(x).imag), (a.real, c(x).real)]):
                check(abs(c(r) - w) < 1e-9, "points", "arithmetic of mesh points: case %d gives %r, not %r", n, c(r), w)
            if abs(y) > 1e-9:
                check(abs(s / b - s / y) < 1e-9 * abs(s / y), "points", "a number divided by a mesh point")
            vals = [c(z) for z in mesh.values()]
            check(np.allclose(vals, v), "points", "the values of the mesh are others")

    def op_freqs(self, g):
        F = self.G.MatsubaraFreq
        b = g.pick([1.0, 7.5])
        S = [g.pick(["Fermion", "Boson"]) for _ in range(2)]
        n = [g.range(-4, 4) for _ in range(2)]
        a, c = F(n[0], b, S[0]), F(n[1], b, S[1])
        v = [1j * math.pi * (2 * i + (s == "Fermion")) / b for i, s in zip(n, S)]
        st = lambda s, t: "Boson" if s == t else "Fermion"
        for r, w, s in ((a + c, v[0] + v[1], st(*S)), (a - c, v[0] - v[1], st(*S)), (-a, -v[0], S[0])):
            check(type(r).__name__ == "MatsubaraFreq" and r.statistic == s and abs(complex(r) - w) < 1e-12 and r.beta == b, "freqs", "arithmetic of Matsubara frequencies: %s for %r (%s)", r, w, s)
        x = num(g) + 1j * num(g)
        for k, (r, w) in enumerate([(a + x, v[0] + x), (x + a, x + v[0]), (a - x, v[0] - x), (x - a, x - v[0]), (a * x, v[0] * x), (x * a, x * v[0]), (a / x, v[0] / x), (a ** 2, v[0] ** 2), (abs(a), abs(v[0])), (a.imag, v[0].imag)]):
            check(abs(complex(r) - w) < 1e-9, "freqs", "arithmetic of Matsubara frequencies: case %d", k)
        if abs(v[0]):
            check(abs(x / a - x / v[0]) < 1e-9 * abs(x / v[0]), "freqs", "a number divided by a frequency")

        def model():
            raise Refuse
        self.run(lambda: a + F(0, b + 1, "Fermion"), model, "a sum of frequencies of other temperatures")

    # ---- archives, other processes, text files
    def archived(self, x):
        """as an archive does: a dictionary, of copies, and back"""
        def store(v):
            if isinstance(v, np.ndarray):
                return v.copy()
            if hasattr(v, "__reduce_to_dict__"):
                return (type(v), getattr(v, "name", ""), {k: store(e) for k, e in v.__reduce_to_dict__().items()})
            return copy.deepcopy(v)

        def load(v):
            if isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], dict):
                return v[0].__factory_from_dict__(v[1], {k: load(e) for k, e in v[2].items()})
            return v
        return load(store(x))

    def there_and_back(self, g, x):
        return self.archived(x) if g.chance(0.5) else pickled(self.p, x)

    def op_archive(self, g):
        x, m = self.any(g, cplx=False)
        self.new_result(lambda: self.there_and_back(g, x), lambda: m.copy(), "a Green's function from an archive")

    def post(self, v):
        self.sim.posted[self.j, self.r] = v

    def pick_common(self, g):
        """the same kind on all processes"""
        x, m = self.make(g, g.pick(self.keys), g.pick(self.shapes))
        x.data[...] = m.data[...] = self.data(m.key, m.shape)
        return x, m

    def op_share(self, g):
        x, m = self.pick_common(g)
        root = g.below(self.sim.nranks)
        mpi = self.p.load("triqs.utility.mpi")
        self.post(m.copy())
        y = mpi.bcast(x, root=root)
        self.same(y, self.sim.posted[self.j, root], "a Green's function from another process")
        if self.r == root:
            self.same(x, m, "after bcast")
        self.add(y, self.sim.posted[self.j, root].copy())

    def op_sum(self, g):
        x, m = self.pick_common(g)
        mpi = self.p.load("triqs.utility.mpi")
        self.post(m.copy())
        y = mpi.all_reduce(x)
        w = M(m.key, sum(self.sim.posted[self.j, r].data for r in range(self.sim.nranks)))
        self.same(y, w, "the sum over the processes")
        self.same(x, m, "after all_reduce")

    def op_text(self, g):
        key = ("ReFreq", -1.5, 2.0, g.range(2, 5)) if g.chance(0.7) else ("ImFreq", 2.0, "Fermion", 2)
        x, m = self.make(g, key, (g.range(1, 2),) * 2)
        x.name = "r%d_t%d" % (self.r, self.j)
        T = self.T
        self.sim.probe("text files")
        n = m.shape[0]
        fire = any(k == "io" for k, _ in self.sim.plan.faults)
        try:
            T.write_gf_to_txt(x)
            files = [["%s_%d_%d.dat" % (x.name, i, j) for j in range(n)] for i in range(n)]
            for i, j in itertools.product(range(n), range(n)):
                t = np.array([[float(w) for w in l.split()] for l in self.sim.fs[files[i][j]].decode().splitlines()])
                v = values(key)
                want = np.array([[abs(z) * (1 if z.imag > 0 else -1) if key[0] == "ImFreq" else z, d.real, d.imag] for z, d in zip(v, m.data[:, i, j])])
                check(t.shape == want.shape and np.allclose(t, want, rtol=1e-12), "text", "a text file has other values")
            if key[0] == "ReFreq":
                y = T.read_gf_from_txt(files, "blk")
                check(np.allclose([y.mesh._a[0], y.mesh._a[1]], key[1:3]) and len(y.mesh) == key[3], "text", "the mesh read is %s", y.mesh)
                check(y.data.shape == m.data.shape and np.allclose(y.data, m.data, rtol=1e-14, atol=0), "text", "other values are read than were written")
        except OSError:
            if not fire:
                raise
            self.sim.probe("text files given up on an error")
        self.same(x, m, "after writing a text file")

    # ---- blocks
    def bmake(self, g, like=None):
        names = like[1] if like else g.pick([["up", "down"], ["0", "1"], ["a", "b", "c"], ["x"]])
        names = list(names)
        if like and g.chance(0.4):
            names.reverse()
        key = like[2][0].key if like else self.keys[0]
        sh = dict(zip(like[1], [m.shape for m in like[2]])) if like else {n: (self.shapes[0] if g.chance(0.6) else g.pick([(), (1, 1), (2, 2)])) for n in names}
        how = g.below(4)
        if how == 0 and all(len(s) == 2 and s[0] == s[1] for s in sh.values()):
            b = self.G.BlockGf(mesh=self.mesh(key), gf_struct=[(n, sh[n][0]) for n in names])
            ms = []
            for n, x in b:
                d = self.data(key, sh[n])
                x.data[...] = d
                ms.append(M(key, d))
        else:
            l = [self.make(g, key, sh[n]) for n in names]
            c = g.chance(0.5)
            if how == 1:
                b = self.G.BlockGf(name_block_generator=((n, x) for n, (x, _) in zip(names, l)), make_copies=c)
            else:
                b = self.G.BlockGf(name_list=list(names), block_list=[x for x, _ in l], make_copies=c)
            if c:
                ms = [m.copy() for _, m in l]
            else:
                ms = [m for _, m in l]
            x, m = l[0]
            self.add(x, m)  # shared with the block, or not
        return [b, names, ms]

    def badd(self, e):
        self.blocks.append(e)
        if len(self.blocks) > 3:
            self.blocks.pop(0)
        return e

    def bany(self, g):
        if not self.blocks or g.chance(0.1):
            return self.badd(self.bmake(g))
        return g.pick(self.blocks)

    def blike(self, g, e):
        c = [f for f in self.blocks if {n: (m.key, m.shape) for n, m in zip(f[1], f[2])} == {n: (m.key, m.shape) for n, m in zip(e[1], e[2])}]
        if c and g.chance(0.6):
            return g.pick(c)
        return self.badd(self.bmake(g, e))

    def of(self, e, n):
        return e[2][list(e[1]).index(n)]

    def bchange(self, e, f, model, what, some=False):
        """model(name, M, number) for all blocks, then f()"""
        try:
            want = [model(n, m, i) for i, (n, m) in enumerate(zip(e[1], e[2]))]
        except Refuse:
            raise Skip  # blocks before the one that is refused may have changed already
        try:
            f()
        except (Violation, OSError):
            raise
        except Exception as x:
            raise Violation("fails", "%s fails: %s: %s" % (what, type(x).__name__, str(x)[:200]))
        for m, w in zip(e[2], want):
            m.data[...] = w.data

    def bresult(self, e, f, model, what):
        try:
            want = [model(n, m, i) for i, (n, m) in enumerate(zip(e[1], e[2]))]
        except Refuse:
            raise Skip
        try:
            r = f()
        except (Violation, OSError):
            raise
        except Exception as x:
            raise Violation("fails", "%s fails: %s: %s" % (what, type(x).__name__, str(x)[:200]))
        check(type(r).__name__ == "BlockGf", "type", "%s: a %s", what, type(r).__name__)
        self.badd([r, list(e[1]), want])
        for _, x in r:
            self.fresh(x, what)

    def op_bnew(self, g):
        e = self.bmake(g)
        self.badd(e)
        if g.chance(0.3):
            b = e[0]

            def model():
                raise Refuse
            k = g.below(3)
            if k == 0:
                self.run(lambda: b["nope"], model, "a block that is not there")
            elif k == 1:
                self.run(lambda: self.G.BlockGf(name_list=["a", "a"], block_list=[self.make(g)[0] for _ in range(2)]), model, "two blocks of one name")
            else:
                self.run(lambda: self.G.BlockGf(name_list=["a"], block_list=[]), model, "names without blocks")

    def op_bblock(self, g):
        e = self.bany(g)
        i = g.below(len(e[1]))
        x = e[0][e[1][i]]
        self.add(x, e[2][i])

    def op_bassign(self, g):
        e = self.bany(g)
        k = g.below(5)
        if k < 2:
            o = self.blike(g, e)
            if k == 0 and o[1] == e[1]:
                f = lambda: e[0].copy_from(o[0])
            elif g.chance(0.5):
                f = lambda: e[0] << o[0]
            else:
                def f():
                    e[0][:] = o[0]
            self.bchange(e, f, lambda n, m, i: self.of(o, n).copy(), "an assignment of blocks")
        elif k == 2:
            s = self.scalar(g)
            self.bchange(e, lambda: e[0] << s, lambda n, m, i: const(m, s), "an assignment of a number to blocks")
        else:
            i = g.below(len(e[1]))
            x, m = self.make(g, e[2][i].key, e[2][i].shape)

            def f():
                e[0][e[1][i]] = x
            f()
            e[2][i].data[...] = m.data

    def simple(self, g, m0):
        """an expression and what it is on any block"""
        D = self.G
        k = g.below(4)
        if m0.key[0] == "ImFreq" and m0.key[2] == "Boson":
            k = 0
        if k == 0:
            s = num(g)
            return D.iOmega_n + s, lambda m: scaled(m, lambda z: z + s)
        if k == 1:
            b, mu = 0.4 + g.uniform(), num(g)
            return D.SemiCircular(b, mu), lambda m: scaled(m, semi(m.key, b, mu))
        if k == 2:
            b = 0.4 + g.uniform()
            return 2 * D.Flat(b), lambda m: M(m.key, 2 * scaled(m, flat(m.key, b)).data)
        return D.inverse(D.iOmega_n - 3.5), lambda m: scaled(m, lambda z: 1 / (z - 3.5))

    def op_blazy(self, g):
        e = self.bany(g)
        if not all(freq(m) and (m.shape == () or square(m)) for m in e[2]):
            raise Skip
        x, v = self.simple(g, e[2][0])
        k = g.below(5)
        if k == 0:
            self.bchange(e, lambda: e[0] << x, lambda n, m, i: v(m), "an expression assigned to blocks")
        elif k < 3:
            s = 1 if k == 1 else -1

            def f():
                b = e[0]
                if s == 1:
                    b += x
                else:
                    b -= x
                check(b is e[0], "inplace", "an operation in place gives another object")
            self.bchange(e, f, lambda n, m, i: addm(m, v(m), s), "an expression added to blocks")
        elif k == 3:
            self.bresult(e, lambda: e[0] + x, lambda n, m, i: addm(m, v(m), 1), "blocks + expression")
        else:
            i = g.below(len(e[1]))

            def f():
                e[0][e[1][i]] = x
            f()
            e[2][i].data[...] = v(e[2][i]).data

    def op_binplace(self, g):
        e = self.bany(g)
        o = self.blike(g, e)
        k = g.below(8)
        s = self.scalar(g)
        ls = [self.scalar(g) for _ in e[1]]
        lg = [self.make(g, m.key, m.shape) for m in e[2]]

        def f():
            b = e[0]
            if k == 0:
                b += o[0]
            elif k == 1:
                b -= o[0]
            elif k == 2:
                b *= o[0]
            elif k == 3:
                b *= s
            elif k == 4:
                b /= s
            elif k == 5:
                b += [x for x, _ in lg]
            elif k == 6:
                b -= ls
            else:
                b /= ls
            check(b is e[0], "inplace", "an operation in place gives another object")
        self.bchange(e, f, lambda n, m, i: (lambda: addm(m, self.of(o, n), 1), lambda: addm(m, self.of(o, n), -1), lambda: mulm(m, self.of(o, n), True), lambda: mulm(m, s), lambda: M(m.key, m.data / s), lambda: addm(m, lg[i][1], 1),
                                            lambda: addm(m, ls[i], -1), lambda: M(m.key, m.data / ls[i]))[k](), "blocks in place %d" % k)

    def op_bbinary(self, g):
        e = self.bany(g)
        o = self.blike(g, e)
        k = g.below(3)
        self.bresult(e, (lambda: e[0] + o[0], lambda: e[0] - o[0], lambda: e[0] * o[0])[k], lambda n, m, i: (lambda: addm(m, self.of(o, n), 1), lambda: addm(m, self.of(o, n), -1), lambda: mulm(m, self.of(o, n)))[k](), "blocks and blocks")

    def op_bscalar(self, g):
        e = self.bany(g)
        s = self.scalar(g)
        k = g.below(8)
        b = e[0]
        f = (lambda: b + s, lambda: s + b, lambda: b - s, lambda: s - b, lambda: b * s, lambda: s * b, lambda: b / s, lambda: -b)[k]
        self.bresult(e, f, lambda n, m, i: (lambda: addm(m, s, 1), lambda: addm(m, s, 1), lambda: addm(m, s, -1), lambda: M(m.key, -addm(m, s, -1).data), lambda: mulm(m, s), lambda: mulm(m, s), lambda: M(m.key, m.data / s), lambda: M(m.key, -m.data))[k](), "blocks and a number")

    def op_bmatrix(self, g):
        e = self.bany(g)
        if len(set(m.shape for m in e[2])) != 1 or not square(e[2][0]):
            raise Skip
        v = self.matrix(e[2][0].shape)
        k = g.below(4)
        b = e[0]
        f = (lambda: b * v, lambda: v * b, lambda: b + v, lambda: v - b)[k]
        self.bresult(e, f, lambda n, m, i: (lambda: mulm(m, v), lambda: mulm(v, m), lambda: addm(m, v, 1), lambda: M(m.key, -addm(m, v, -1).data))[k](), "blocks and a matrix")

    def op_bselect(self, g):
        e = self.bany(g)
        s = [n for n in e[1] if g.chance(0.6)] or [e[1][0]]
        order = [n for n in e[1] if n in s]
        if g.chance(0.5):
            s.reverse()
        if g.chance(0.5):
            r = e[0].view_selected_blocks(s)
            self.badd([r, order, [self.of(e, n) for n in order]])
        else:
            r = e[0].copy_selected_blocks(s)
            self.badd([r, order, [self.of(e, n).copy() for n in order]])

    def op_bunary(self, g):
        e = self.bany(g)
        k = g.below(7)
        b = e[0]
        if k == 0:
            self.bresult(e, lambda: b.copy(), lambda n, m, i: m.copy(), "a copy of blocks")
        elif k == 1:
            if e[2][0].rank > 1:
                raise Skip
            self.bresult(e, lambda: b.inverse() if g.chance(0.5) else self.G.inverse(b), lambda n, m, i: invm(m), "the inverse of blocks")
        elif k == 2:
            if e[2][0].rank > 1:
                raise Skip
            self.bchange(e, lambda: b.invert(), lambda n, m, i: invm(m), "invert of blocks")
        elif k == 3:
            self.bresult(e, lambda: b.transpose(), lambda n, m, i: trm(m), "the transpose of blocks")
        elif k == 4:
            self.bresult(e, lambda: b.conjugate(), lambda n, m, i: M(m.key, np.conj(m.data)), "the conjugate of blocks")
        elif k == 5:
            r = b.real if g.chance(0.5) else None
            q = r if r is not None else b.imag
            for (n, x), m in zip(q, e[2]):
                self.same(x, M(m.key, m.data.real if r is not None else m.data.imag), "real or imaginary part of blocks")
                x *= 2
                if r is not None:
                    m.data.real[...] *= 2
                else:
                    m.data.imag[...] *= 2
        else:
            w = list(b.all_indices) if all(len(m.shape) == 2 for m in e[2]) else None
            if w is not None:
                check(w == [(n, i, j) for n, m in zip(e[1], e[2]) for i in range(m.shape[0]) for j in range(m.shape[1])], "indices", "all_indices gives others")

    def op_bmap(self, g):
        e = self.bany(g)
        at = g.below(len(e[1]) + 1)
        k = [0]
        kind = g.below(3)

        def fun(x):
            k[0] += 1
            if k[0] > at and kind == 2:
                raise Thrown
            return x.conjugate() if kind != 1 else float(np.sum(np.abs(x.data)))
        if kind == 2 and at < len(e[1]):
            try:
                self.G.map_block(fun, e[0])
            except Thrown:
                self.sim.fired("function of the program throws")
                return
            raise Violation("swallowed", "an exception of the program's function is lost")
        if kind == 1:
            r = self.G.map_block(fun, e[0])
            check(len(r) == len(e[1]) and np.allclose(r, [np.sum(np.abs(m.data)) for m in e[2]]), "map", "map_block gives other values")
        else:
            self.bresult(e, lambda: self.G.map_block(fun, e[0]), lambda n, m, i: M(m.key, np.conj(m.data)), "map_block")

    def op_barchive(self, g):
        e = self.bany(g)
        self.bresult(e, lambda: self.there_and_back(g, e[0]), lambda n, m, i: m.copy(), "blocks from an archive")

    def op_bbreak(self, g):
        """refused at the first block: nothing changes"""
        e = self.bany(g)
        m = e[2][0]
        b = e[0]
        o = self.G.BlockGf(name_list=list(e[1]), block_list=[self.make(g, w.key, tuple(w.shape) + (2,))[0] if i == 0 else self.make(g, w.key, w.shape)[0] for i, w in enumerate(e[2])])

        def model():
            raise Refuse

        def f():
            b[:] = o
        self.run(g.pick([lambda: b << o, lambda: b.copy_from(o), f]), model, "blocks of other shapes assigned")

    # ---- blocks with two names
    def b2make(self, g, like=None):
        n1, n2 = (like[1], like[2]) if like else (g.pick([["up", "dn"], ["x"]]), g.pick([["up", "dn"], ["a", "b", "c"]]))
        n1, n2 = list(n1), list(n2)
        if like and g.chance(0.4):
            n1.reverse()
        if like and g.chance(0.4):
            n2.reverse()
        key = like[3][0][0].key if like else self.keys[0]
        sh = (lambda a, b: like[3][list(like[1]).index(a)][list(like[2]).index(b)].shape) if like else (lambda a, b, s=g.pick([self.shapes[0], (1, 1), ()]): s)
        l = [[self.make(g, key, sh(a, b)) for b in n2] for a in n1]
        c = g.chance(0.5)
        if g.chance(0.5):
            b = self.G.Block2Gf(n1, n2, [[x for x, _ in r] for r in l], make_copies=c)
        else:
            b = self.G.Block2Gf(n1, n2, lambda a, b: l[n1.index(a)][n2.index(b)][0], make_copies=c)
        ms = [[m.copy() if c else m for _, m in r] for r in l]
        self.add(*l[0][-1])
        return [b, n1, n2, ms]

    def b2add(self, e):
        self.blocks2.append(e)
        if len(self.blocks2) > 3:
            self.blocks2.pop(0)
        return e

    def b2any(self, g):
        if not self.blocks2 or g.chance(0.15):
            return self.b2add(self.b2make(g))
        return g.pick(self.blocks2)

    def b2like(self, g, e):
        d = lambda e: {(a, b): (m.key, m.shape) for a, r in zip(e[1], e[3]) for b, m in zip(e[2], r)}
        c = [f for f in self.blocks2 if d(f) == d(e)]
        return g.pick(c) if c and g.chance(0.6) else self.b2add(self.b2make(g, e))

    def of2(self, e, a, b):
        return e[3][list(e[1]).index(a)][list(e[2]).index(b)]

    def b2apply(self, e, f, model, what, result):
        try:
            want = [[model(a, b, m) for b, m in zip(e[2], r)] for a, r in zip(e[1], e[3])]
        except Refuse:
            raise Skip
        try:
            r = f()
        except (Violation, OSError):
            raise
        except Exception as x:
            raise Violation("fails", "%s fails: %s: %s" % (what, type(x).__name__, str(x)[:200]))
        if result:
            check(type(r).__name__ == "Block2Gf", "type", "%s: a %s", what, type(r).__name__)
            self.b2add([r, list(e[1]), list(e[2]), want])
            for _, x in r:
                self.fresh(x, what)
        else:
            for rr, ww in zip(e[3], want):
                for m, w in zip(rr, ww):
                    m.data[...] = w.data

    def op_b2new(self, g):
        e = self.b2add(self.b2make(g))
        a, b = g.pick(e[1]), g.pick(e[2])
        if g.chance(0.5):
            self.add(e[0][a, b], self.of2(e, a, b))
        check(len(e[0]) == len(e[1]) * len(e[2]) and list(e[0].indices) == list(itertools.product(e[1], e[2])), "blocks", "other indices")
        if g.chance(0.3):
            def model():
                raise Refuse
            self.run(lambda: e[0][a, "nope"], model, "a block that is not there")

    def op_b2assign(self, g):
        e = self.b2any(g)
        k = g.below(5)
        if k < 2:
            o = self.b2like(g, e)
            f = (lambda: e[0].copy_from(o[0])) if k == 0 and o[1] == e[1] and o[2] == e[2] else (lambda: e[0] << o[0])
            self.b2apply(e, f, lambda a, b, m: self.of2(o, a, b).copy(), "an assignment of blocks", False)
        elif k == 2:
            s = self.scalar(g)
            self.b2apply(e, lambda: e[0] << s, lambda a, b, m: const(m, s), "a number assigned to blocks", False)
        elif k == 3:
            m0 = e[3][0][0]
            if not freq(m0) or not (m0.shape == () or square(m0)):
                raise Skip
            x, v = self.simple(g, m0)
            if g.chance(0.5):
                self.b2apply(e, lambda: e[0] << x, lambda a, b, m: v(m), "an expression assigned to blocks", False)
            else:
                self.b2apply(e, lambda: e[0] + x, lambda a, b, m: addm(m, v(m), 1), "an expression added to blocks", True)
        else:
            a, b = g.pick(e[1]), g.pick(e[2])
            m = self.of2(e, a, b)
            x, n = self.make(g, m.key, m.shape)

            def f():
                e[0][a, b] = x
            f()
            m.data[...] = n.data

    def op_b2inplace(self, g):
        e = self.b2any(g)
        o = self.b2like(g, e)
        k, s = g.below(6), self.scalar(g)

        def f():
            b = e[0]
            if k == 0:
                b += o[0]
            elif k == 1:
                b -= o[0]
            elif k == 2:
                b *= o[0]
            elif k == 3:
                b *= s
            elif k == 4:
                b /= s
            else:
                b -= s
            check(b is e[0], "inplace", "an operation in place gives another object")
        self.b2apply(e, f, lambda a, b, m: (lambda: addm(m, self.of2(o, a, b), 1), lambda: addm(m, self.of2(o, a, b), -1), lambda: mulm(m, self.of2(o, a, b), True), lambda: mulm(m, s), lambda: M(m.key, m.data / s), lambda: addm(m, s, -1))[k](), "blocks in place %d" % k, False)

    def op_b2binary(self, g):
        e = self.b2any(g)
        o = self.b2like(g, e)
        s = self.scalar(g)
        k = g.below(10)
        b = e[0]
        sh = e[3][0][0].shape
        v = self.matrix(sh) if len(sh) == 2 and sh[0] == sh[1] else 2.5
        f = (lambda: b + o[0], lambda: b - o[0], lambda: b * o[0], lambda: s * b, lambda: b / s, lambda: -b, lambda: b.copy(), lambda: s - b, lambda: v * b, lambda: self.G.map_block(lambda x: x.conjugate(), b))[k]
        self.b2apply(e, f, lambda a, c, m: (lambda: addm(m, self.of2(o, a, c), 1), lambda: addm(m, self.of2(o, a, c), -1), lambda: mulm(m, self.of2(o, a, c)), lambda: mulm(s, m), lambda: M(m.key, m.data / s), lambda: M(m.key, -m.data), lambda: m.copy(),
                                            lambda: M(m.key, -addm(m, s, -1).data), lambda: mulm(v, m), lambda: M(m.key, np.conj(m.data)))[k](), "blocks %d" % k, True)

    def op_b2select(self, g):
        e = self.b2any(g)
        if g.chance(0.4):
            self.b2apply(e, lambda: self.there_and_back(g, e[0]), lambda a, b, m: m.copy(), "blocks from an archive", True)
            return
        s1 = [n for n in e[1] if g.chance(0.6)] or [e[1][0]]
        s2 = [n for n in e[2] if g.chance(0.6)] or [e[2][0]]
        c = g.chance(0.5)
        r = e[0].copy_selected_blocks(s1, s2) if c else e[0].view_selected_blocks(s1, s2)
        self.b2add([r, s1, s2, [[self.of2(e, a, b).copy() if c else self.of2(e, a, b) for b in s2] for a in s1]])


def pickled(p, x):
    c = p.MPI.COMM_WORLD
    return c._loads(c._dumps(x))


if __name__ == "__main__":
    pysim.main(globals())
