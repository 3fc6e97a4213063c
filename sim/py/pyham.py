"""Interactions and observables written as operators (O04), superlattices and lattices from files of Wannier90 (L02): histories of
calls by one or several simulated processes, which change what they got, with disk errors, full disks and files cut short."""
import ast, itertools, math, os, pickle, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import pysim, pytriqs, pyops
from pysim import Rng, SimProc, SimFile, Violation, mix

NAME = "pyham"
MAXSTEPS = 400000
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(REPO, "python")

OPS = {1: ["slater", "slater", "symbols", "kanamori", "cubic", "parts", "hslater", "hslater", "hkanamori", "hkanamori", "hdensity", "diagonal", "spin", "orbital", "orbital", "struct", "averages", "refuse"],
       2: ["super", "super", "super", "path", "wannier", "wannier", "pythtb"]}


def generate(g, p):
    p.cfg.setdefault("ranks", g.pick([1, 1, 1, 2, 3]))
    p.cfg.setdefault("prop", 1)
    p.cfg["buffer"] = g.pick([16, 100, 1000, 8192])
    io = False
    for _ in range(g.pick([1, 1, 2, 3, 4])):
        k = g.pick(OPS[p.cfg["prop"]])
        io = io or k in ("hslater", "hkanamori", "hdensity", "wannier")
        p.op(0, k, g.below(1 << 30), g.below(1 << 20))
    if io and g.chance(0.4):
        p.fault("io", g.range(1, g.pick([6, 20, 200])), g.below(2))


def check(ok, cls, fmt, *a):
    if not ok:
        raise Violation(cls, fmt % a if a else fmt)


class BufFile(SimFile):
    """a file with a buffer: what is written reaches the disk when the buffer is full, on flush and on close; at the end of a file
    that nobody closed an error is lost"""

    def __init__(self, proc, path, mode):
        self.buf, self.closed = "", True
        SimFile.__init__(self, proc, path, mode)
        proc.sim.yield_()

    def write(self, x):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not isinstance(x, str) or "b" in self.mode:
            return SimFile.write(self, x)
        self.buf += x
        if len(self.buf) >= self.p.sim.cfg["buffer"]:
            self.flush()
        return len(x)

    def flush(self):
        b, self.buf = self.buf, ""
        if b:
            SimFile.write(self, b)

    def close(self):
        if not self.closed:
            self.closed = True
            self.flush()

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def writelines(self, l):
        for x in l:
            self.write(x)

    def __del__(self):
        try:
            self.close()
        except Exception:
            self.p.sim.probe("errors lost with a file nobody closed")


def fast_special():
    m = types.ModuleType("scipy.special")

    def factorial(n, exact=False):
        return float(math.factorial(n)) if n >= 0 else 0.0
    m.factorial = factorial
    s = types.ModuleType("scipy")
    s.__path__ = []
    s.special = m
    return {"scipy": s, "scipy.special": m}


def setup(sim):
    for r in range(sim.nranks):
        p = SimProc(sim, r, [PKG], env={"OMPI_COMM_WORLD_RANK": "0"} if sim.nranks > 1 else {})
        pytriqs.stand_ins(p)
        p.MPI.COMM_WORLD.proc = p
        p.mods.update(fast_special())
        p.mods["triqs.operators.operators"] = pyops.module()
        ex = types.ModuleType("triqs.operators.util.extractors")
        ex.__all__ = []
        p.mods["triqs.operators.util.extractors"] = ex
        p.builtins["open"] = lambda path, mode="r", *a, p=p, **k: BufFile(p, path, mode)
        sim.spawn("rank%d" % r, r, lambda r=r, p=p: rank_main(sim, r, p))


def rank_main(sim, r, p):
    R = Runner(sim, r, p)
    for j, (_, k, a) in enumerate(sim.plan.ops):
        sim.yield_()
        sim.trace("%s %r", k, a)
        g = Rng(mix(a[0], a[1], 5))
        getattr(R, "op_" + k)(g)
        sim.state(j, hash(k) if False else sum(map(ord, k)), a[1] % 64, r)


def finish(sim):
    pass


# ------------------------------------------------------------------------------------------------ oracles
def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b), initial=0))))


def num(g, lo=-2, hi=2):
    return lo + (hi - lo) * g.uniform()


def unitary(g, n, real=False):
    a = np.array([[num(g) + (0 if real else 1j * num(g)) for _ in range(n)] for _ in range(n)])
    return np.linalg.qr(a)[0]


_ylm = {}


def legendre_p(l, m, x):  # associated Legendre functions with the Condon-Shortley phase
    s = np.sqrt(1 - x * x)
    p = np.ones_like(x)
    for i in range(1, m + 1):
        p = -p * (2 * i - 1) * s
    if l == m:
        return p
    q = x * (2 * m + 1) * p
    for n in range(m + 2, l + 1):
        p, q = q, ((2 * n - 1) * x * q - (n + m - 1) * p) / (n - m)
    return q


def theta_part(l, m, x):
    """Y_lm = theta_part * exp(i m phi)"""
    a = abs(m)
    f = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - a) / math.factorial(l + a)) * legendre_p(l, a, x)
    return f if m >= 0 else (-1) ** a * f


X, WX = np.polynomial.legendre.leggauss(24)
_th = {}


def th(l, m):
    if (l, m) not in _th:
        _th[l, m] = theta_part(l, m, X)
    return _th[l, m]


def gaunt(l1, m1, l2, m2, l3, m3):
    """the integral of Y*_{l1 m1} Y_{l2 m2} Y_{l3 m3} over the sphere"""
    k = (l1, m1, l2, m2, l3, m3)
    if k not in _ylm:
        _ylm[k] = 2 * math.pi * float(np.sum(WX * th(l1, m1) * th(l2, m2) * th(l3, m3))) if -m1 + m2 + m3 == 0 and abs(m1) <= l1 and abs(m2) <= l2 and abs(m3) <= l3 else 0.0
    return _ylm[k]


def angular(l, k, m1, m2, m3, m4):
    """of 4 pi / (2k+1) sum_q Y_kq(1) Y*_kq(2) between (m1, m2) and (m3, m4)"""
    r = 0.0
    for q in range(-k, k + 1):
        r += gaunt(l, m1, k, q, l, m3) * (-1) ** q * gaunt(l, m2, k, -q, l, m4)
    return 4 * math.pi / (2 * k + 1) * r


_U = {}


def coulomb(l):
    """angular parts for all k and m's"""
    if l not in _U:
        n = 2 * l + 1
        a = np.zeros((l + 1, n, n, n, n))
        for k in range(0, 2 * l + 1, 2):
            for m1, m2, m3 in itertools.product(range(-l, l + 1), repeat=3):
                m4 = m1 + m2 - m3
                if abs(m4) <= l:
                    a[k // 2, m1 + l, m2 + l, m3 + l, m4 + l] = angular(l, k, m1, m2, m3, m4)
        _U[l] = a
    return _U[l]


_cg = {}


def clebsch(j1, j2):
    """<j1 m1 j2 m2 | J M> by lowering the highest states (integer j), Condon-Shortley"""
    if (j1, j2) in _cg:
        return _cg[j1, j2]
    r = {}
    basis = list(itertools.product(range(-j1, j1 + 1), range(-j2, j2 + 1)))
    idx = {b: i for i, b in enumerate(basis)}

    def lower(v):
        w = np.zeros_like(v)
        for (a, b), i in idx.items():
            if v[i]:
                if a > -j1:
                    w[idx[a - 1, b]] += v[i] * math.sqrt(j1 * (j1 + 1) - a * (a - 1))
                if b > -j2:
                    w[idx[a, b - 1]] += v[i] * math.sqrt(j2 * (j2 + 1) - b * (b - 1))
        return w
    done = {}
    for J in range(j1 + j2, abs(j1 - j2) - 1, -1):
        sub = [b for b in basis if sum(b) == J]
        higher = [done[K, J] for K in range(J + 1, j1 + j2 + 1)]
        v = np.zeros(len(basis))
        for b in sorted(sub, reverse=True):  # orthogonal to the states of larger J
            t = np.zeros(len(basis))
            t[idx[b]] = 1
            for _ in range(2):
                for h in higher:
                    t -= h * (h @ t)
            if np.linalg.norm(t) > 1e-6:
                v = t / np.linalg.norm(t)
                break
        if v[idx[j1, J - j1]] < 0:
            v = -v
        done[J, J] = v
        for M in range(J, -J, -1):
            done[J, M - 1] = lower(done[J, M]) / math.sqrt(J * (J + 1) - M * (M - 1))
    for (J, M), v in done.items():
        for (a, b), i in idx.items():
            r[a, b, J, M] = v[i]
    _cg[j1, j2] = r
    return r


_jw = {}


def annihilators(n):
    if n not in _jw:
        z, o = np.diag([1.0, -1.0]), np.array([[0.0, 1.0], [0.0, 0.0]])
        l = []
        for i in range(n):
            m = np.ones((1, 1))
            for j in range(n):
                m = np.kron(m, z if j < i else o if j == i else np.identity(2))
            l.append(m)
        _jw[n] = l
    return _jw[n]


def dense(H, modes):
    """the matrix of an operator; modes: name -> number"""
    c = annihilators(len(modes))
    r = np.zeros((2 ** len(modes),) * 2, complex)
    for w, x in H:
        m = np.identity(len(r))
        for d, i in w:
            check(tuple(i) in modes, "mode", "the operator has a mode %r, the modes are %r", tuple(i), sorted(modes))
            a = c[modes[tuple(i)]]
            m = m @ (a.T if d else a)
        r += complex(x) * m
    return r


REAL = {  # real harmonics by their names
    "s": lambda x, y, z: x * 0 + 1, "x": lambda x, y, z: x, "y": lambda x, y, z: y, "z": lambda x, y, z: z,
    "xy": lambda x, y, z: x * y, "yz": lambda x, y, z: y * z, "xz": lambda x, y, z: x * z, "z^2": lambda x, y, z: 3 * z * z - 1,
    "x^2-y^2": lambda x, y, z: x * x - y * y,
    "x(x^2-3y^2)": lambda x, y, z: x * (x * x - 3 * y * y), "z(x^2-y^2)": lambda x, y, z: z * (x * x - y * y), "xz^2": lambda x, y, z: x * (5 * z * z - 1),
    "z^3": lambda x, y, z: z * (5 * z * z - 3), "yz^2": lambda x, y, z: y * (5 * z * z - 1), "xyz": lambda x, y, z: x * y * z, "y(3x^2-y^2)": lambda x, y, z: y * (3 * x * x - y * y)}
NAMES = {"triqs": {0: ["s"], 1: ["x", "y", "z"], 2: ["xy", "yz", "z^2", "xz", "x^2-y^2"], 3: ["x(x^2-3y^2)", "z(x^2-y^2)", "xz^2", "z^3", "yz^2", "xyz", "y(3x^2-y^2)"]},
         "wannier90": {0: ["s"], 1: ["z", "x", "y"], 2: ["z^2", "xz", "yz", "x^2-y^2", "xy"]},
         "wien2k": {0: ["s"], 1: ["x", "y", "z"], 2: ["z^2", "x^2-y^2", "xy", ("yz", "xz"), ("yz", "xz")]}}
NAMES["vasp"], NAMES["qe"] = NAMES["triqs"], NAMES["wannier90"]


def cubic_T(l):
    """rows: cubic harmonics in terms of Y_lm, up to a phase of each; by integration"""
    n = NAMES["triqs"][l]
    ph = np.arange(16) * 2 * math.pi / 16
    x = np.sqrt(1 - X * X)[:, None] * np.cos(ph)
    y = np.sqrt(1 - X * X)[:, None] * np.sin(ph)
    z = X[:, None] + 0 * ph
    T = np.zeros((2 * l + 1, 2 * l + 1), complex)
    for i, a in enumerate(n):
        f = REAL[a](x, y, z)
        f = f / math.sqrt(np.sum(WX[:, None] * f * f) * 2 * math.pi / 16)
        for m in range(-l, l + 1):
            T[i, m + l] = np.sum(WX[:, None] * f * np.conj(th(l, m)[:, None] * np.exp(1j * m * ph))) * 2 * math.pi / 16
    return T


def rotate(U, T):
    """b+_i = sum_j T_ij a+_j"""
    c = T.conj()
    return np.einsum("ai,bj,ijkl,ck,dl->abcd", c, c, U, T, T, optimize=True)


# ------------------------------------------------------------------------------------------------ the programs
class Runner:
    def __init__(self, sim, r, p):
        self.sim, self.r, self.p = sim, r, p
        self.nfile = 0

    def mod(self, name):
        return self.p.load("triqs.operators.util." + name)

    def spoil(self, g, a):
        """the program changes an array it was given"""
        if g.chance(0.5) and isinstance(a, np.ndarray) and a.size:
            a[...] = num(g)
            self.sim.probe("results changed by the program")

    def refused(self, f, what, *exc):
        try:
            f()
        except exc or (ValueError, RuntimeError, KeyError):
            return
        check(False, "not-refused", "%s was accepted", what)

    # ---- Coulomb tensors
    def radial(self, g, l):
        return [num(g, 0.2, 3) for _ in range(l + 1)]

    def slater_U(self, g, l, need_real=False):
        """a call of U_matrix_slater and what it has to give"""
        M = self.mod("U_matrix")
        kw = {}
        form = g.below(3) if l > 0 else 0
        F = self.radial(g, l)
        if form == 0:
            kw["radial_integrals"] = F if g.chance(0.5) else np.array(F)
        else:
            U, J = num(g, 1, 5), num(g, 0.1, 1)
            kw["U_int"], kw["J_hund"] = U, J
            a, b = {1: (5.0, []), 2: (14 / 1.63, [0.63]), 3: (6435 / (286 + 195 * 451 / 675 + 250 * 1001 / 2025), [451 / 675, 1001 / 2025])}[l]
            G = [U, J * a] + [J * a * x for x in b]
            if form == 2:  # both: the integrals count
                kw["radial_integrals"] = np.array(F)
            else:
                F = G
        ref = np.einsum("k,kabcd->abcd", np.array(F), coulomb(l))
        basis = g.pick(["spherical", "cubic", "other", None])
        if need_real and basis == "other":
            basis = "cubic"
        if basis:
            kw["basis"] = basis
        if basis == "cubic":
            ref = rotate(ref, cubic_T(l))
            check(np.max(np.abs(ref.imag)) < 1e-9, "oracle", "the oracle is complex")
        if basis == "other":
            T = unitary(g, 2 * l + 1)
            kw["T"] = T
            ref = rotate(ref, T)
        got = M.U_matrix_slater(l, **kw)
        if basis == "cubic" and l > 0:  # the phases of the harmonics are those of spherical_to_cubic
            T = M.spherical_to_cubic(l)
            ph = np.einsum("im,im->i", T, cubic_T(l).conj())
            check(close(np.abs(ph), np.ones(2 * l + 1)), "cubic", "spherical_to_cubic(%d) gives other harmonics", l)
            ref = np.einsum("a,b,abcd,c,d->abcd", ph.conj(), ph.conj(), ref, ph, ph)
        check(close(got, ref), "slater", "U_matrix_slater(%d, %s) is wrong by %g", l, ", ".join("%s=%s" % (k, "..." if k == "T" else np.round(v, 4) if k != "basis" else v) for k, v in kw.items()), np.max(np.abs(np.asarray(got) - ref)) if np.shape(got) == ref.shape else -1)
        return got, ref

    def op_slater(self, g):
        l = g.pick([0, 1, 1, 1, 1, 2] if g.chance(0.97) else [3])
        got, ref = self.slater_U(g, l)
        M = self.mod("U_matrix")
        U, Up = M.reduce_4index_to_2index(got)
        n = 2 * l + 1
        a = np.einsum("abab->ab", ref).real
        check(close(Up, a), "reduce", "reduce_4index_to_2index: the matrix of antiparallel spins is wrong")
        check(close(U, a - np.einsum("abba->ab", ref).real), "reduce", "reduce_4index_to_2index: the matrix of parallel spins is wrong")
        T = unitary(g, n)
        W = M.transform_U_matrix(got, T)
        check(close(W, rotate(ref, T)), "transform", "transform_U_matrix gives another tensor")
        check(close(M.transform_U_matrix(W, T.conj().T), ref), "transform", "transform_U_matrix there and back is not where it was")
        for x in (U, Up, W, got):
            self.spoil(g, x)

    def op_symbols(self, g):
        M = self.mod("U_matrix")
        for _ in range(12):
            k = g.below(3)
            if k == 0:
                l = g.range(0, 3)
                kk = g.range(0, 2 * l)
                m = [g.range(-l, l) for _ in range(3)]
                m.append(m[0] + m[1] - m[2] if g.chance(0.8) else g.range(-l, l))
                want = angular(l, kk, *m) if abs(m[3]) <= l else 0.0
                if abs(m[3]) <= l:
                    got = M.angular_matrix_element(l, kk, *m)
                    check(abs(got - want) < 1e-9, "angular", "angular_matrix_element(%d, %d, %r) = %g, not %g", l, kk, m, got, want)
                continue
            j1, j2 = g.range(0, 3), g.range(0, 3)
            J = g.range(0, 6)
            m1, m2 = g.range(-j1, j1), g.range(-j2, j2)
            Mz = m1 + m2 if g.chance(0.8) else g.range(-J, J)
            want = clebsch(j1, j2).get((m1, m2, J, Mz), 0.0)
            if k == 1:
                got = M.clebsch_gordan((j1, m1), (j2, m2), (J, Mz))
                check(abs(got - want) < 1e-9, "clebsch", "clebsch_gordan((%d, %d), (%d, %d), (%d, %d)) = %g, not %g", j1, m1, j2, m2, J, Mz, got, want)
            else:
                got = M.three_j_symbol((j1, m1), (j2, m2), (J, -Mz))
                want *= (-1) ** (j1 - j2 + Mz) / math.sqrt(2 * J + 1)
                check(abs(got - want) < 1e-9, "three-j", "three_j_symbol((%d, %d), (%d, %d), (%d, %d)) = %g, not %g", j1, m1, j2, m2, J, -Mz, got, want)

    def kanamori_U(self, g, n):
        M = self.mod("U_matrix")
        U, J = num(g, 1, 5), num(g, 0.1, 1)
        kw, Up = {}, U - 2 * J
        if g.chance(0.5):
            kw["Up_int"] = Up = num(g, 0.5, 3)
        a, b = M.U_matrix_kanamori(n, U, J, **kw)
        same = np.array([[0 if i == j else Up - J for j in range(n)] for i in range(n)], float).reshape(n, n)
        opp = np.array([[U if i == j else Up for j in range(n)] for i in range(n)], float).reshape(n, n)
        check(close(a, same) and close(b, opp), "kanamori", "U_matrix_kanamori(%d, %g, %g, %r) gives other matrices", n, U, J, kw)
        return U, Up, J, a, b, same, opp, kw

    def op_kanamori(self, g):
        M = self.mod("U_matrix")
        n = g.range(1, 5)
        U, Up, J, a, b, same, opp, kw = self.kanamori_U(g, n)
        kw = dict(kw)
        Jc = J
        if g.chance(0.5):
            kw["Jc_hund"] = Jc = num(g, 0, 1)
            self.refused(lambda: M.U_matrix_kanamori(n, U, J, **kw), "Jc_hund without the full tensor")
        t = M.U_matrix_kanamori(n, U, J, full_Uijkl=True, **kw)
        ref = np.zeros((n,) * 4)
        for i, j in itertools.product(range(n), repeat=2):
            if i == j:
                ref[i, i, i, i] = U
            else:
                ref[i, j, i, j], ref[i, j, j, i], ref[i, i, j, j] = Up, J, Jc
        check(close(t, ref), "kanamori", "U_matrix_kanamori: the full tensor is wrong")
        c, d = M.reduce_4index_to_2index(t)
        check(close(c, same) and close(d, opp), "reduce", "the full tensor of Kanamori reduces to other matrices")
        for x in (a, b, t, c, d):
            self.spoil(g, x)

    def op_cubic(self, g):
        M = self.mod("U_matrix")
        conv = g.pick(["triqs", "triqs", "vasp", "wien2k", "wannier90", "qe"])
        l = g.range(0, 3)
        if l not in NAMES[conv]:
            return self.refused(lambda: M.spherical_to_cubic(l, conv), "the convention %s for l = %d" % (conv, l))
        T = M.spherical_to_cubic(l) if conv == "triqs" and g.chance(0.5) else M.spherical_to_cubic(l, convention=conv)
        if l > 0:
            check(close(T @ T.conj().T, np.identity(2 * l + 1)), "cubic", "spherical_to_cubic(%d, %s) is not unitary", l, conv)
            C, names = cubic_T(l), NAMES["triqs"][l]
            used = set()
            for i, a in enumerate(NAMES[conv][l]):
                a = (a,) if isinstance(a, str) else a
                hit = [x for x in a if abs(abs(np.vdot(C[names.index(x)], T[i])) - 1) < 1e-9 and x not in used]
                check(hit, "cubic", "spherical_to_cubic(%d, %s): the function %d is not %s", l, conv, i, a[0])
                used.add(hit[0])
        key = g.pick([l, "spdf"[l]])
        check(tuple(M.cubic_names(key)) == tuple(NAMES["triqs"][l]), "cubic", "cubic_names(%r) is %r", key, M.cubic_names(key))
        self.spoil(g, T)

    def op_parts(self, g):
        M = self.mod("U_matrix")
        conv = g.pick(["triqs", "vasp", "wien2k", "wannier90", "qe"])
        n = NAMES[conv][2]
        t2g = [i for i, a in enumerate(n) if isinstance(a, tuple) or a in ("xy", "yz", "xz")]
        eg = [i for i, a in enumerate(n) if a in ("z^2", "x^2-y^2")]
        rank = g.pick([2, 4])
        a = np.array([num(g) for _ in range(5 ** rank)]).reshape((5,) * rank)
        keep = a.copy()
        kw = {} if conv == "triqs" and g.chance(0.5) else {"convention": conv}
        for f, ix, what in ((M.t2g_submatrix, t2g, "t2g"), (M.eg_submatrix, eg, "eg")):
            s = f(a, **kw)
            check(np.array_equal(s, keep[np.ix_(*[ix] * rank)]), "parts", "%s_submatrix of rank %d, %s, is another part", what, rank, conv)
            self.spoil(g, s)
            check(np.array_equal(a, keep), "aliased", "changing what %s_submatrix gave changes the matrix it was given", what)
        b = np.array([num(g) for _ in range(60)]).reshape(3, 4, 5)
        ix = [tuple(sorted({g.below(d) for _ in range(3)})) for d in b.shape]
        check(np.array_equal(M.subarray(b, ix), b[np.ix_(*ix)]), "parts", "subarray(%r) is another part", ix)
        self.refused(lambda: M.t2g_submatrix(a, "none"), "an unknown convention")
        self.refused(lambda: M.eg_submatrix(a, "none"), "an unknown convention")

    def op_averages(self, g):
        M = self.mod("U_matrix")
        l = g.range(1, 3)
        U, J = num(g, 1, 5), num(g, 0.1, 1)
        F = M.U_J_to_radial_integrals(l, U, J)
        t = np.einsum("k,kabcd->abcd", np.array(F), coulomb(l))
        n = 2 * l + 1
        ua = np.einsum("abab->", t) / n ** 2
        ja = ua - (np.einsum("abab->", t) - np.einsum("abba->", t)) / (n * (n - 1))
        check(abs(ua - U) < 1e-9 and abs(ja - J) < 1e-9, "averages", "radial integrals for U = %g and J = %g, l = %d, have the averages %g and %g", U, J, l, ua, ja)
        G = self.radial(g, l)
        G[2:] = [F[i] / F[1] * G[1] for i in range(2, l + 1)]
        a, b = M.radial_integrals_to_U_J(l, G)
        check(close(M.U_J_to_radial_integrals(l, a, b), G), "averages", "radial integrals to U and J and back are others, l = %d", l)
        a, b = M.radial_integrals_to_U_J(l, F)
        check(abs(a - U) < 1e-9 and abs(b - J) < 1e-9, "averages", "U and J to radial integrals and back are others, l = %d", l)

    def op_refuse(self, g):
        M, H, O, S = self.mod("U_matrix"), self.mod("hamiltonians"), self.mod("observables"), self.mod("op_struct")
        k = g.below(7)
        if k == 0:
            self.refused(lambda: M.U_matrix_slater(1), "a Slater matrix without integrals")
        elif k == 1:
            self.refused(lambda: M.U_matrix_slater(1, radial_integrals=[1.0, 1.0], basis="other"), "another basis without transformation")
        elif k == 2:
            self.refused(lambda: M.U_matrix_slater(2, radial_integrals=np.array([1.0, 1.0]), U_int=1.0, J_hund=0.2), "too few radial integrals")
        elif k == 3:
            self.refused(lambda: H.h_int_density(["up", "down"], 1, np.zeros((1, 1)), np.ones((1, 1))), "neither off_diag nor a map")
        elif k == 4:
            self.refused(lambda: O.N_op(["up", "down"], 1, True, orb_names=[0]), "orb_names")
        elif k == 5:
            self.refused(lambda: O.L_op("z", ["up"], 2, True, basis="cubic"), "a cubic basis for l = 1/2")
        else:
            U = np.zeros((2,) * 4, complex)
            U[0, 1, 0, 1], U[0, 1, 1, 0] = 1, 0.3j
            self.refused(lambda: H.h_int_slater(["up", "down"], 2, U, True), "a complex tensor taken as real")

    # ---- operators
    def names(self, g, n, nspin=2):
        """arguments that name the modes; (spin, orbital) -> name; all modes -> number"""
        spins = g.pick([["up", "down"], ["down", "up"], ["a", "b"]])[:nspin]
        k = g.below(3)
        if k == 0:
            kw, f = dict(off_diag=True), lambda s, o: (s, o)
        elif k == 1:
            kw, f = dict(off_diag=False), lambda s, o: ("%s_%d" % (s, o), 0)
        else:
            m = {(s, o): ("bl%d" % (o if g.chance(0.5) else 7 - o), i) for i, s in enumerate(spins) for o in range(n)}
            if len(set(m.values())) < len(m):
                m = {(s, o): ("bl%d" % o, i) for i, s in enumerate(spins) for o in range(n)}
            kw, f = dict(map_operator_structure=m), lambda s, o: m[s, o]
            if g.chance(0.3):
                kw["off_diag"] = g.chance(0.5)
        modes = {}
        for s in spins:
            for o in range(n):
                modes[f(s, o)] = len(modes)
        return spins, kw, f, modes

    def cs(self, spins, n, f, modes):
        a = annihilators(len(modes))
        return {(s, o): a[modes[f(s, o)]] for s in spins for o in range(n)}

    def dump(self, g):
        if g.chance(0.4):
            return None
        self.nfile += 1
        return "dump%d_%d" % (self.r, self.nfile if g.chance(0.7) else 0)

    def call(self, f, dump):
        """f(H_dump) and, if the disk fails, once more"""
        try:
            return f(dump), True
        except OSError as e:
            check(dump is not None, "io", "an I/O error without a file")
            self.sim.probe("dumps that failed")
            if e.errno not in (5, 28):
                raise
            return f(None), False

    def lines(self, dump):
        t = self.sim.fs[dump].decode()
        check(t.endswith("\n"), "dump-cut", "the dump of the Hamiltonian is cut short, and no error was reported: %r", t[-40:])
        return t.splitlines()

    def modes_of(self, ln, n):
        w = ln.split("\t")
        check(len(w) == n + 1, "dump", "a line of the dump: %r", ln)
        try:
            return [tuple(ast.literal_eval(x)) for x in w[:n]], complex(w[n])
        except (ValueError, SyntaxError):
            check(False, "dump", "a line of the dump: %r", ln)

    def compare(self, H, ref, modes, what):
        got = dense(H, modes)
        check(close(got, ref), "hamiltonian", "%s is another operator, off by %g", what, np.max(np.abs(got - ref)))

    def op_hslater(self, g):
        Hm = self.mod("hamiltonians")
        n = g.pick([1, 2, 2, 3])
        cplx = g.chance(0.4)
        if n == 3 and g.chance(0.5):
            U, _ = self.slater_U(g, 1, need_real=not cplx)
            U = np.array(U)
        else:
            U = np.array([0 if g.chance(0.7) else num(g) + (1j * num(g) if cplx else 0) for _ in range(n ** 4)], complex if cplx else float).reshape((n,) * 4)
            U = U + U.transpose(1, 0, 3, 2)
        if cplx and g.chance(0.3):
            U = U.real + 0.0
        spins, kw, f, modes = self.names(g, n)
        arg = U if cplx or g.chance(0.5) else U.astype(complex)
        if cplx or np.iscomplexobj(U) and np.max(np.abs(U.imag)) > 1e-10:
            kw["complex"] = True
        c = self.cs(spins, n, f, modes)
        ref = np.zeros_like(annihilators(len(modes))[0], complex)
        for s1, s2 in itertools.product(spins, repeat=2):
            for i, j, k, l in itertools.product(range(n), repeat=4):
                if U[i, j, k, l]:
                    ref = ref + 0.5 * U[i, j, k, l] * (c[s1, i].T @ c[s2, j].T @ c[s2, l] @ c[s1, k])
        dump, keep = self.dump(g), arg.copy()
        H, ok = self.call(lambda d: Hm.h_int_slater(spins, n, arg, H_dump=d, **kw), dump)
        check(np.array_equal(arg, keep), "argument", "h_int_slater changed the tensor it was given")
        self.compare(H, ref, modes, "h_int_slater")
        if dump and ok:
            back = np.zeros_like(ref)
            a = annihilators(len(modes))
            ls = self.lines(dump)
            check(ls[0] == "Slater Hamiltonian:", "dump", "the dump starts with %r", ls[0])
            for ln in ls[1:]:
                m, x = self.modes_of(ln, 4)
                check(all(y in modes for y in m), "dump", "modes in the dump: %r", m)
                i, j, k, l = [a[modes[y]] for y in m]
                back = back + 0.5 * x * (i.T @ j.T @ l @ k)
            check(close(back, ref), "dump", "the dump of h_int_slater is not the Hamiltonian")

    def density(self, U, Up, spins, n, c):
        ref = 0
        for s1, s2 in itertools.product(spins, repeat=2):
            for i, j in itertools.product(range(n), repeat=2):
                if (s1, i) != (s2, j):
                    ref = ref + 0.5 * (U if s1 == s2 else Up)[i, j] * (c[s1, i].T @ c[s1, i] @ c[s2, j].T @ c[s2, j])
        return ref

    def two_index(self, g, n):
        if g.chance(0.5):
            _, _, J, a, b, _, _, _ = self.kanamori_U(g, n)
            return a, b, J
        a = np.array([num(g) for _ in range(n * n)]).reshape(n, n)
        a = a + a.T - np.diag(2 * np.diag(a))
        b = np.array([num(g) for _ in range(n * n)]).reshape(n, n)
        return a, b + b.T, num(g)

    def op_hkanamori(self, g):
        Hm = self.mod("hamiltonians")
        n = g.pick([1, 2, 2, 3])
        U, Up, J = self.two_index(g, n)
        spins, kw, f, modes = self.names(g, n)
        c = self.cs(spins, n, f, modes)
        ref = self.density(U, Up, spins, n, c) + 0j
        u, d = spins
        for i, j in itertools.permutations(range(n), 2):
            ref = ref - J * (c[u, i].T @ c[d, i] @ c[d, j].T @ c[u, j]) + J * (c[u, i].T @ c[d, i].T @ c[d, j] @ c[u, j])
        dump = self.dump(g)
        keep = U.copy(), Up.copy()
        H, ok = self.call(lambda x: Hm.h_int_kanamori(spins, n, U, Up, J, H_dump=x, **kw), dump)
        self.compare(H, ref, modes, "h_int_kanamori")
        check(np.array_equal(U, keep[0]) and np.array_equal(Up, keep[1]), "argument", "h_int_kanamori changed the matrices it was given")
        if dump and ok:
            self.two_dump(dump, "Kanamori Hamiltonian:", ref, f, spins, n, c)
        self.spoil(g, U)

    def two_dump(self, dump, first, ref, f, spins, n, c):
        ls = self.lines(dump)
        check(ls[0] == first, "dump", "the dump starts with %r", ls[0])
        back, part = np.zeros_like(ref), None
        inv = {f(s, o): (s, o) for s in spins for o in range(n)}
        for ln in ls[1:]:
            if ln.endswith("terms:"):
                part = ln.split()[0]
                continue
            m, x = self.modes_of(ln, 2)
            check(all(y in inv for y in m), "dump", "modes in the dump: %r", m)
            (s1, i), (s2, j) = inv[m[0]], inv[m[1]]
            if part == "Density-density":
                t = c[s1, i].T @ c[s1, i] @ c[s2, j].T @ c[s2, j]
            elif part == "Spin-flip":
                t = c[s1, i].T @ c[s2, i] @ c[s2, j].T @ c[s1, j]
            else:
                check(part == "Pair-hopping", "dump", "a part of the dump is called %r", part)
                t = c[s1, i].T @ c[s2, i].T @ c[s2, j] @ c[s1, j]
            back = back + 0.5 * x * t
        check(close(back, ref), "dump", "the dump is not the Hamiltonian: %s", first)

    def op_hdensity(self, g):
        Hm = self.mod("hamiltonians")
        n = g.pick([1, 2, 3])
        U, Up, _ = self.two_index(g, n)
        spins, kw, f, modes = self.names(g, n)
        c = self.cs(spins, n, f, modes)
        ref = self.density(U, Up, spins, n, c) + 0j
        dump = self.dump(g)
        keep = U.copy(), Up.copy()
        H, ok = self.call(lambda x: Hm.h_int_density(spins, n, U, Up, H_dump=x, **kw), dump)
        self.compare(H, ref, modes, "h_int_density")
        check(np.array_equal(U, keep[0]) and np.array_equal(Up, keep[1]), "argument", "h_int_density changed the matrices it was given")
        if dump and ok:
            self.two_dump(dump, "Density-density Hamiltonian:", ref, f, spins, n, c)
        self.spoil(g, Up)

    def op_diagonal(self, g):
        Hm, O = self.mod("hamiltonians"), self.p.load("triqs.operators")
        nm = g.range(1, 5)
        modes = {("m", i): i for i in range(nm)}
        H = O.Operator(num(g)) if g.chance(0.5) else O.Operator()
        cplx = g.chance(0.5)
        for _ in range(g.range(0, 6)):
            t = O.Operator(num(g) + (1j * num(g) if cplx else 0))
            for _ in range(g.range(1, 3)):
                i, j = g.below(nm), g.below(nm)
                t = t * (O.n("m", i) if g.chance(0.4) else O.c_dag("m", i) * O.c("m", j) if g.chance(0.7) else O.c_dag("m", i) * O.c_dag("m", j))
            H = H + t
        full = dense(H, modes)
        D = Hm.diagonal_part(H)
        check(close(dense(D, modes), np.diag(np.diag(full))), "diagonal", "diagonal_part is not the diagonal of the operator")
        check(close(dense(H, modes), full), "argument", "diagonal_part changed its argument")
        im = max([abs(complex(x).imag) for _, x in H], default=0)
        tol = g.pick([0, im * 0.5, im * 1.5 + 1e-12])
        if im > tol:
            self.refused(lambda: Hm.make_operator_real(H, tol), "an operator with imaginary parts %g, tolerance %g" % (im, tol))
        else:
            R = O.Operator()
            for w, x in H:
                t = O.Operator(complex(x).real)
                for d, i in w:
                    t = t * (O.c_dag(*i) if d else O.c(*i))
                R = R + t
            check(close(dense(Hm.make_operator_real(H, tol), modes), dense(R, modes)), "real", "make_operator_real gives another operator")

    def op_spin(self, g):
        O = self.mod("observables")
        n = g.range(1, 3)
        spins, kw, f, modes = self.names(g, n)
        c = self.cs(spins, n, f, modes)
        u, d = spins
        N = sum(c[s, o].T @ c[s, o] for s in spins for o in range(n))
        Sp = sum(c[u, o].T @ c[d, o] for o in range(n)) + 0j
        Sm = Sp.T
        Sz = 0.5 * sum(c[u, o].T @ c[u, o] - c[d, o].T @ c[d, o] for o in range(n)) + 0j
        ref = {"N": N, "x": (Sp + Sm) / 2, "y": (Sp - Sm) / 2j, "z": Sz, "+": Sp, "-": Sm, "S2": Sz @ Sz + (Sp @ Sm + Sm @ Sp) / 2}
        for _ in range(3):
            k = g.pick(sorted(ref))
            H = O.N_op(spins, n, **kw) if k == "N" else O.S2_op(spins, n, **kw) if k == "S2" else O.S_op(k, spins, n, **kw)
            check(close(dense(H, modes), ref[k]), "spin", "the operator %s is another one", k)

    def op_orbital(self, g):
        O = self.mod("observables")
        n = g.pick([1, 2, 3, 3])
        nspin = g.pick([1, 2])
        spins, kw, f, modes = self.names(g, n, nspin)
        c = self.cs(spins, n, f, modes)
        l = (n - 1) / 2
        ms = [i - l for i in range(n)]
        Lp = np.zeros((n, n), complex)
        for i in range(n - 1):
            Lp[i + 1, i] = math.sqrt(l * (l + 1) - ms[i] * (ms[i] + 1))
        m = {"z": np.diag(ms) + 0j, "+": Lp, "-": Lp.T}
        m["x"], m["y"] = (Lp + Lp.T) / 2, (Lp - Lp.T) / 2j
        basis = g.pick(["spherical", "cubic", "other", None])
        if basis == "cubic" and n % 2 == 0:
            basis = "other"
        if basis:
            kw["basis"] = basis
        T = np.identity(n)
        if basis == "cubic" and n > 1:
            T = self.mod("U_matrix").spherical_to_cubic(int(l))
        if basis == "other":
            kw["T"] = T = unitary(g, n)
        L = {}
        for k, x in m.items():
            x = T.conj() @ x @ T.T
            L[k] = sum(x[i, j] * (c[s, i].T @ c[s, j]) for s in spins for i in range(n) for j in range(n))
        for _ in range(2):
            k = g.pick(["x", "y", "z", "+", "-", "L2"] + (["LS"] * 2 if nspin == 2 else []))
            if k == "LS":
                H = O.LS_op(spins, n, **kw)
                u, d = spins
                Sp = sum(c[u, o].T @ c[d, o] for o in range(n)) + 0j
                Sz = 0.5 * sum(c[u, o].T @ c[u, o] - c[d, o].T @ c[d, o] for o in range(n))
                ref = L["x"] @ (Sp + Sp.T) / 2 + L["y"] @ (Sp - Sp.T) / 2j + L["z"] @ Sz
            elif k == "L2":
                H = O.L2_op(spins, n, **kw)
                ref = L["x"] @ L["x"] + L["y"] @ L["y"] + L["z"] @ L["z"]
            else:
                H, ref = O.L_op(k, spins, n, **kw), L[k]
            check(close(dense(H, modes), ref), "orbital", "the operator %s in the basis %s of %d orbitals is another one", k, basis, n)

    def op_struct(self, g):
        S = self.mod("op_struct")
        n, off = g.range(1, 5), g.chance(0.5)
        spins = g.pick([["up", "down"], ["a"], ["x", "y", "z"]])
        st = S.set_operator_structure(spins, n, off)
        mk = S.get_mkind(off, None)
        all_ = {(b, i) for b, k in st for i in range(k)}
        mine = {tuple(mk(s, o)) for s in spins for o in range(n)}
        check(len(mine) == n * len(spins) and mine == all_ and len(st) == len({b for b, _ in st}), "struct", "the modes %r are not those of the structure %r", sorted(mine), st)
        check([b for b, _ in st] == (spins if off else ["%s_%d" % (s, o) for s in spins for o in range(n)]), "struct", "the blocks are %r", st)
        st.clear()

    # ---------------------------------------------------------------------------------------------- lattices
    def base(self, g, dim, norb):
        T = self.p.load("triqs.lattice.tight_binding")
        while True:
            units = np.array([[num(g) for _ in range(dim)] for _ in range(dim)])
            if abs(np.linalg.det(units)) > 0.3:
                break
        pos = [tuple(num(g) for _ in range(3)) for _ in range(norb)]
        names = ["o%d" % i for i in range(norb)]
        hop = {}
        a = np.array([[num(g) + 1j * num(g) for _ in range(norb)] for _ in range(norb)])
        if g.chance(0.6):
            hop[(0,) * dim] = a + a.conj().T
        for _ in range(g.range(1, 4)):
            R = tuple(g.range(-2, 2) for _ in range(dim))
            Q = tuple(-x for x in R)
            if R == Q or R in hop:
                continue
            a = np.array([[num(g) + 1j * num(g) for _ in range(norb)] for _ in range(norb)])
            hop[R], hop[Q] = a, a.conj().T
        if not hop:
            hop[(0,) * dim] = np.identity(norb, complex)
        return T.TBLattice(units, hop, pos, names), units, hop, pos, names

    def op_super(self, g):
        S = self.p.load("triqs.lattice.super_lattice")
        dim = g.pick([1, 2, 2, 3])
        norb = g.pick([1, 1, 2, 3])
        tb, units, hop, pos, names = self.base(g, dim, norb)
        keep = {k: v.copy() for k, v in hop.items()}
        while True:
            A = np.array([[g.range(-1, 2) if i != j else g.range(1, 3) for j in range(dim)] for i in range(dim)]) if g.chance(0.7) else np.array([[g.range(-2, 2) for _ in range(dim)] for _ in range(dim)])
            N = int(round(abs(np.linalg.det(A))))
            if 0 < N <= 6:
                break
        inv = np.linalg.inv(A.T.astype(float))

        def cell(x):  # x = A^T R + site, by rounding down the coordinates in units of the superlattice
            R = np.floor(inv @ np.array(x) + 1e-9).astype(int)
            return tuple(int(y) for y in R), tuple(int(y) for y in np.array(x) - A.T @ R)
        sites = sorted({cell(x)[1] for x in itertools.product(range(-7, 8), repeat=dim)})
        check(len(sites) == N, "oracle", "the oracle finds %d sites of %d", len(sites), N)
        kw = {}
        if g.chance(0.4):
            for i in range(N - 1, 0, -1):
                j = g.below(i + 1)
                sites[i], sites[j] = sites[j], sites[i]
            form = g.below(4)
            kw["cluster_sites"] = [list(s) for s in sites] if form == 0 else [tuple(s) for s in sites] if form == 1 else np.array(sites) if form == 2 else tuple(tuple(s) for s in sites)
        rm = g.chance(0.3)
        if rm:
            kw["remove_internal_hoppings"] = True
        try:
            L = S.TBSuperLattice(tb, A.tolist() if g.chance(0.5) else A, **kw)
        except Exception as e:
            check(False, "super-refused", "the superlattice %r of %d dimensions%s is refused: %s %s", A.tolist(), dim, ", ".join([""] + sorted(kw)), type(e).__name__, str(e)[:100])
        self.superlattice(g, S, tb, L, A, N, cell, sites, kw, rm, units, keep, pos, names, dim, norb)

    def superlattice(self, g, S, tb, L, A, N, cell, sites, kw, rm, units, hop, pos, names, dim, norb):
        got = [tuple(int(y) for y in x) for x in L.cluster_sites()]
        check(sorted(got) == sorted(sites), "sites", "the sites of the cluster are %r", got)
        if "cluster_sites" in kw:
            check(got == sites, "sites", "the sites of the cluster are in another order")
        sites = got
        check(L.Ncluster_sites == N and L.n_orbitals == N * norb and L.Norb == N * norb and L.ndim == dim, "sizes", "the superlattice has %r sites, %r orbitals", L.Ncluster_sites, L.n_orbitals)
        check(close(L.units, A @ units), "units", "the units of the superlattice are others")
        pack = {(s, o): L.pack_index_site_orbital(s, o) for s in range(N) for o in range(norb)}
        check(sorted(pack.values()) == list(range(N * norb)), "pack", "orbitals of the superlattice are numbered %r", sorted(pack.values()))
        for (s, o), i in pack.items():
            check(tuple(L.unpack_index_site_orbital(i)) == (s, o), "pack", "unpack(pack(%d, %d)) is %r", s, o, L.unpack_index_site_orbital(i))
            x = np.array(pos[o]) + np.concatenate([np.array(sites[s]) @ units, np.zeros(3 - dim)])
            check(close(L.orbital_positions[i], x), "positions", "the orbital %d of site %d is at another place", o, s)
        check(len(set(L.orbital_names)) == N * norb, "names", "names of orbitals: %r", L.orbital_names)
        for (s, o), i in pack.items():
            want = str(s + 1) if norb == 1 else names[o] if N == 1 else "%d_%s" % (s + 1, names[o])
            check(L.orbital_names[i] == want, "names", "the orbital %d of site %d is called %s", o, s, L.orbital_names[i])

        def folded(h, n, size, remove):
            ref = {}
            for s, cs in enumerate(sites):
                for d, t in h.items():
                    R, b = cell(np.array(cs) + np.array(d))
                    m = ref.setdefault(R, np.zeros((size, size), complex))
                    if not (remove and not any(R)):
                        for a1 in range(n):
                            for a2 in range(n):
                                m[pack[s, a1], pack[sites.index(b), a2]] += t[a1, a2]
            return ref

        def same(h, ref, what):
            h = {tuple(int(y) for y in R): np.asarray(m) for R, m in h.items()}
            for R in set(h) | set(ref):
                z = np.zeros((N * norb,) * 2)
                check(close(h.get(R, z), ref.get(R, z)), "hoppings", "%s: the matrix of displacement %r is another one", what, R)
        same(L.hoppings, folded(hop, norb, N * norb, rm), "hoppings of the superlattice")
        same(tb.hoppings, {k: v for k, v in hop.items()} if N * norb == norb else tb.hoppings, "the base lattice") if N == 1 else None
        for k, v in hop.items():
            check(close(tb.hoppings[k], v), "argument", "making a superlattice changed the base lattice")
        f = {tuple(g.range(-3, 3) for _ in range(dim)): np.array([[num(g) for _ in range(norb)] for _ in range(norb)]) for _ in range(3)}
        rem = g.chance(0.4)
        same(L.fold(f, rem), folded(f, norb, N * norb, rem), "fold")
        if g.chance(0.5):
            same(L.fold(f, rem, create_zero=lambda: np.zeros((N * norb,) * 2, complex)), folded(f, norb, N * norb, rem), "fold with create_zero")
        for _ in range(3):
            x = [g.range(-9, 9) for _ in range(dim)]
            R, a = L.change_coordinates_L_to_SL(x)
            wR, wb = cell(x)
            check(tuple(int(y) for y in R) == wR and sites[a] == wb, "coordinates", "the point %r is taken for cell %r, site %d", x, tuple(R), a)
            y = L.change_coordinates_SL_to_L(R, a)
            check([int(v) for v in y] == x, "coordinates", "coordinates of %r there and back are %r", x, [int(v) for v in y])
        check(str(rm) in repr(L), "repr", "repr says %r", repr(L)[-60:])
        if g.chance(0.4):
            comm = self.p.MPI.COMM_WORLD
            M = comm._loads(comm._dumps(L))
            check(type(M).__name__ == "TBSuperLattice" and M.Ncluster_sites == N and [tuple(int(y) for y in x) for x in M.cluster_sites()] == sites and close(M.units, L.units), "pickle", "a superlattice that was pickled is another one")
            same(M.hoppings, folded(hop, norb, N * norb, rm), "hoppings of a superlattice that was pickled")
        # the spectrum: bands of the base lattice at the momenta that fold onto one another
        if not rm:
            K = np.array([g.uniform() for _ in range(dim)])
            e = []
            Ai = np.linalg.inv(A.astype(float))
            seen = []
            for n in itertools.product(range(-6, 7), repeat=dim):
                k = Ai @ (K + np.array(n))
                if np.all(k > -1e-9) and np.all(k < 1 - 1e-9) or N == 1 and not any(n):
                    k = k % 1
                    if not any(np.allclose((k - q + 0.5) % 1, 0.5, atol=1e-7) for q in seen):
                        seen.append(k)
                        h = sum(np.exp(2j * np.pi * (k @ np.array(d))) * t for d, t in hop.items())
                        e += list(np.linalg.eigvalsh(h))
            if len(seen) == N:
                self.sim.probe("spectra of superlattices")
                h = sum(np.exp(2j * np.pi * (K @ np.array(d))) * t for d, t in L.hoppings.items())
                check(close(np.linalg.eigvalsh(h), sorted(e), 1e-8), "spectrum", "the superlattice has another spectrum")

    def op_path(self, g):
        U = self.p.load("triqs.lattice.utils")
        n, ns = g.pick([1, 2, 3, 7]), g.range(1, 4)
        pts = [np.array([num(g) for _ in range(3)]) for _ in range(ns + 1)]
        seg = [(pts[i], pts[i + 1]) if g.chance(0.7) else (np.array([num(g) for _ in range(3)]), pts[i]) for i in range(ns)]
        if g.chance(0.4):
            seg = [(list(a), tuple(b)) for a, b in seg]
        kw, cellm = {}, np.identity(3)
        if g.chance(0.5):
            cellm = np.array([[num(g) for _ in range(3)] for _ in range(3)]) + 2 * np.identity(3)
            kw["bz"] = types.SimpleNamespace(units=cellm)
        rel = g.chance(0.6)
        if not rel:
            kw["relative_coordinates"] = False
        if n == 1:
            n = 2
        k, d, t = U.k_space_path(seg, num=n, **kw)
        wk, wd, cur, wt = [], [], 0.0, [0.0]
        for a, b in seg:
            a, b = np.array(a), np.array(b)
            length = np.linalg.norm((b - a) @ cellm)
            for i in range(n):
                x = a + (b - a) * i / (n - 1)
                wk.append(x if rel else x @ cellm)
                wd.append(cur + length * i / (n - 1))
            cur += length
            wt.append(cur)
        check(close(k, wk), "path", "k_space_path gives other points")
        check(close(d, wd) and close(t, wt), "path", "k_space_path gives other distances")

    def op_wannier(self, g):
        U = self.p.load("triqs.lattice.utils")
        sim, p = self.sim, self.p
        nw, dim = g.range(1, 3), 3
        hop = {(0, 0, 0): None}
        npts = g.pick([1, 3, 7, 13, 15, 15, 17, 29, 31, 45])  # 15 degeneracies on a line
        while len(hop) < npts:
            R = tuple(g.range(-2, 2) for _ in range(3))
            hop[R] = hop[tuple(-x for x in R)] = None
        Rs = sorted(hop) if g.chance(0.7) else sorted(hop, key=lambda r: mix(1, *[x + 5 for x in r]))
        H = {}
        for R in Rs:
            if R in H:
                continue
            a = np.array([[round(num(g), 6) + 1j * round(num(g), 6) for _ in range(nw)] for _ in range(nw)])
            Q = tuple(-x for x in R)
            if Q == R:
                a = np.round((a + a.conj().T) / 2, 6)
            H[R], H[Q] = a, a.conj().T
        deg = {}
        for R in Rs:
            deg[R] = deg[tuple(-x for x in R)] = deg.get(tuple(-x for x in R), g.pick([1, 1, 2, 3, 4]))
        # the files, as Wannier90 writes them: the first orbital index runs fastest
        t = " written on  1Jan2024 at 00:00:00\n%12d\n%12d\n" % (nw, len(Rs))
        for i in range(0, len(Rs), 15):
            t += "".join("%5d" % deg[R] for R in Rs[i:i + 15]) + "\n"
        for R in Rs:
            for n in range(nw):
                for m in range(nw):
                    t += "%5d%5d%5d%5d%5d%12.6f%12.6f\n" % (R + (m + 1, n + 1, H[R][m, n].real, H[R][m, n].imag))
        unit = g.pick([("(Ang)", 1.0), ("(Bohr)", 0.529177210)])
        A = np.array([[round(num(g), 6) for _ in range(3)] for _ in range(3)]) + 3 * np.identity(3)
        w = " some lines\n\n" + " " * 30 + "Lattice Vectors " + unit[0] + "\n"
        for i in range(3):
            w += "                    a_%d  %11.6f%11.6f%11.6f\n" % ((i + 1,) + tuple(A[i]))
        w += "\n                   Unit Cell Volume:   1.0  (Ang^3)\n"
        seed, path = "s%d" % self.r, g.pick(["./", "dir/"])
        whole = True
        if g.chance(0.25):  # the program that wrote them ended early
            which = g.below(2)
            if which == 0:
                ln = t.splitlines(True)
                t = "".join(ln[:g.below(len(ln))])
                if g.chance(0.5) and len(t) < sum(map(len, ln[:-1])):
                    t += ln[len(t.splitlines())][:g.range(0, 20)]
            else:
                i = w.index("a_3")
                w = w[:g.below(i + 20)]
            whole = False
            sim.fired("file cut short")
        sim.fs[path + seed + "_hr.dat"], sim.fs[path + seed + ".wout"] = t.encode(), w.encode()
        spin = g.chance(0.3)
        n = nw * (2 if spin else 1)
        kw = {} if path == "./" and g.chance(0.5) else {"path": path}
        if spin:
            kw["extend_to_spin"] = True
        loc = None
        if g.chance(0.4):
            kw["add_local"] = loc = np.diag([num(g) for _ in range(n)]) + 0j
        try:
            L = U.TB_from_wannier90(seed, **kw)
        except Violation:
            raise
        except OSError as e:
            if whole and not any(k == "io" for k, _ in sim.plan.faults):
                raise
            sim.probe("files that could not be read")
            return
        except Exception as e:
            if whole:
                raise
            sim.probe("files refused")
            return
        check(whole, "cut-accepted", "a file of Wannier90 that is cut short is accepted")
        check(close(L.units, A * unit[1], 1e-7), "wannier", "the units are others")
        check(L.n_orbitals == n, "wannier", "there are %d orbitals, not %d", L.n_orbitals, n)
        h = L.hoppings
        check({tuple(int(x) for x in R) for R in h} == set(H), "wannier", "the displacements are others")
        for R, m in h.items():
            R = tuple(int(x) for x in R)
            want = H[R] / deg[R]
            if spin:
                want = np.kron(np.identity(2), want)
            if loc is not None and not any(R):
                want = want + loc
            check(close(m, want), "wannier", "the hopping of displacement %r is not that of the file", R)
        self.spoil(g, loc)

    def op_pythtb(self, g):
        U = self.p.load("triqs.lattice.utils")
        n = g.range(1, 3)
        lat = np.array([[num(g) for _ in range(3)] for _ in range(3)]) + 3 * np.identity(3)
        orb = [tuple(num(g) for _ in range(3)) for _ in range(n)]
        e = [num(g) for _ in range(n)]
        hops = []
        for _ in range(g.range(0, 5)):
            R = [g.range(-1, 1) for _ in range(3)]
            i, j = g.below(n), g.below(n)
            if not any(R) and i == j:
                continue
            hops.append([num(g) + 1j * num(g), i, j, np.array(R) if g.chance(0.5) else R])
        ptb = types.SimpleNamespace(_site_energies=np.array(e), _hoppings=hops, get_lat=lambda: lat, get_orb=lambda: orb, get_num_orbitals=lambda: n)
        ref = {(0, 0, 0): np.diag(e).astype(complex)}
        for t, i, j, R in hops:  # H_ij(R) += t, H_ji(-R) += t*
            R = tuple(int(x) for x in R)
            ref.setdefault(R, np.zeros((n, n), complex))[i, j] += t
            ref.setdefault(tuple(-x for x in R), np.zeros((n, n), complex))[j, i] += np.conj(t)
        L = U.TB_from_pythTB(ptb)
        h = {tuple(int(x) for x in R): m for R, m in L.hoppings.items()}
        check(set(h) == set(ref), "pythtb", "the displacements are others")
        for R in ref:
            check(close(h[R], ref[R]), "pythtb", "the hopping of displacement %r is another one", R)
        check(close(L.units, lat) and L.n_orbitals == n, "pythtb", "the lattice is another one")


if __name__ == "__main__":
    pysim.main(globals())
