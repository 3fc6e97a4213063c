"""Stand-ins for the compiled modules under triqs.gf, triqs.lattice and h5: meshes, numerical helpers, lattices."""
import itertools, types
import numpy as np


class Formats:
    """h5.formats"""
    def __init__(self):
        self.classes = {}

    def module(self):
        m = types.ModuleType("h5.formats")
        m.register_class = lambda c, *a, **k: self.classes.setdefault(c.__name__, c)
        m.register_backward_compatibility_method = lambda *a, **k: None
        return m


def make_meshes(proc):
    """the module triqs.gf.meshes of a process"""
    M = types.ModuleType("triqs.gf.meshes")

    class Mesh:
        def __init__(self, *a):
            self._a = a

        def _len(self):
            return self._a[-1]

        def __len__(self):
            return self._len()

        def __eq__(self, o):
            return type(self) is type(o) and self._a == o._a

        def __ne__(self, o):
            return not self == o

        __hash__ = None

        @property
        def mesh_hash(self):
            return hash((type(self).__name__,) + self._a)

        def copy(self):
            return type(self)(*self._a)

        def copy_from(self, o):
            if type(self) is not type(o):
                raise TypeError("copy_from: another type of mesh")
            self._a = o._a

        def _value(self, i):
            return float(i)

        def _index(self, i):
            return i

        def to_data_index(self, i):
            return i

        def __iter__(self):
            P = proc.load("triqs.gf.mesh_point").MeshPoint
            for i in range(len(self)):
                yield P(self._index(i), i, self.mesh_hash, self._value(i), 1.0)

        def values(self):
            return proc.load("triqs.gf").MeshValueGenerator(self)

        def __reduce__(self):
            return type(self), self._a

        def __str__(self):
            return "%s%r" % (type(self).__name__, self._a)
        __repr__ = __str__

    def beta(self):
        return self._a[0]

    def statistic(self):
        return self._a[1]

    class MeshImFreq(Mesh):
        def __init__(self, beta, S=None, n_iw=1025, statistic=None, n_max=None):
            Mesh.__init__(self, float(beta), S or statistic, int(n_max or n_iw))

        def _len(self):
            return 2 * self._a[2] - (self._a[1] != "Fermion")

        def first_index(self):
            return -self._a[2] + (self._a[1] != "Fermion")

        def last_index(self):
            return self._a[2] - 1

        def _index(self, i):
            return i + self.first_index()

        def to_data_index(self, n):
            return n - self.first_index()

        def _value(self, i):
            return proc.load("triqs.gf.matsubara_freq").MatsubaraFreq(self._index(i), self._a[0], self._a[1])

        def __call__(self, n):
            if not self.first_index() <= n <= self.last_index():
                raise RuntimeError("no such Matsubara index")
            return proc.load("triqs.gf.mesh_point").MeshPoint(n, self.to_data_index(n), self.mesh_hash, proc.load("triqs.gf.matsubara_freq").MatsubaraFreq(n, self._a[0], self._a[1]), 1.0)

        def positive_only(self):
            return False

        def set_tail_fit_parameters(self, *a, **k):
            pass

    class MeshImTime(Mesh):
        def __init__(self, beta, S=None, n_tau=10001, statistic=None, n_max=None):
            Mesh.__init__(self, float(beta), S or statistic, int(n_max or n_tau))

        def _value(self, i):
            return self._a[0] * i / max(1, len(self) - 1)

    class MeshReFreq(Mesh):
        def __init__(self, *a, **k):
            a = a or ((k["window"][0], k["window"][1], k["n_w"]))
            Mesh.__init__(self, float(a[0]), float(a[1]), int(a[2]))

        def _value(self, i):
            return self._a[0] + (self._a[1] - self._a[0]) * i / max(1, len(self) - 1)

    class MeshReTime(MeshReFreq):
        pass

    class MeshLegendre(Mesh):
        def __init__(self, beta, S=None, max_n=30, statistic=None):
            Mesh.__init__(self, float(beta), S or statistic, int(max_n))

    class MeshBrZone(Mesh):
        def __init__(self, bz, n):
            Mesh.__init__(self, bz, n)

        def _len(self):
            return self._a[1] ** self._a[0].ndim

        @property
        def mesh_hash(self):
            return hash((type(self).__name__, self._a[0].ndim, self._a[1]))

        def _value(self, i):
            return np.array([float(i), 0.0, 0.0])

    class MeshCycLat(MeshBrZone):
        pass

    class MeshDLR(Mesh):
        def __init__(self, beta, S, w_max, eps):
            Mesh.__init__(self, float(beta), S, float(w_max), float(eps))

        def _len(self):
            return 5

    class MeshDLRImFreq(MeshDLR):
        pass

    class MeshDLRImTime(MeshDLR):
        pass
    for c in (MeshImFreq, MeshImTime, MeshLegendre, MeshDLR):
        c.beta, c.statistic = property(beta), property(statistic)
    for c in (Mesh, MeshImFreq, MeshImTime, MeshReFreq, MeshReTime, MeshLegendre, MeshBrZone, MeshCycLat, MeshDLR, MeshDLRImFreq, MeshDLRImTime):
        c.__module__, c.__qualname__ = "triqs.gf.meshes", c.__name__
        if c is not Mesh:
            setattr(M, c.__name__, c)
    M._Base = Mesh
    Mesh.__name__ = Mesh.__qualname__ = "_Base"
    M.make_adjoint_mesh = _no("make_adjoint_mesh")
    return M


def _no(name):
    def f(*a, **k):
        raise NotImplementedError("the simulator has no " + name)
    f.__name__ = name
    return f


def _add(sign):
    def f(g, y):
        if type(g.mesh).__name__ not in ("MeshImFreq", "MeshReFreq"):
            raise TypeError("no overload for a Green's function on " + type(g.mesh).__name__)
        n = g.target_shape
        if isinstance(y, np.ndarray):
            if y.ndim != 2 or y.shape != tuple(n):
                raise RuntimeError("matrix of shape %r and target %r" % (y.shape, n))
            g.data[...] += sign * y
        else:
            g.data[...] += sign * complex(y) * np.identity(n[0])
    return f


def _invert(d):
    if d.ndim != 3 or d.dtype != np.complex128:
        raise TypeError("array_view<dcomplex,3> expected")
    d[...] = np.linalg.inv(d)


def _density(g, *a, **k):
    """the plain Matsubara sum with the 1/(i omega) tail summed exactly"""
    b = g.mesh.beta
    w = np.array([complex(x.value) for x in g.mesh])
    one = np.identity(g.target_shape[0])
    return 0.5 * one + np.sum(g.data - one / w[:, None, None], axis=0) / b


GF_FNT = "fit_tail fit_hermitian_tail set_from_fourier is_gf_real_in_tau set_from_legendre set_from_imfreq set_from_imtime is_gf_hermitian fit_tail_on_window fit_hermitian_tail_on_window replace_by_tail replace_by_tail_in_fit_window rebinning_tau enforce_discontinuity".split()
FACTORIES = "make_gf_from_fourier make_hermitian make_real_in_tau make_gf_dlr fit_gf_dlr make_gf_dlr_imtime make_gf_dlr_imfreq make_gf_imtime make_gf_imfreq".split()


def make_lattice_tools():
    L = types.ModuleType("triqs.lattice.lattice_tools")

    class BravaisLattice:
        def __init__(self, units, orbital_positions=((0, 0, 0),), atom_orb_name=None):
            u = np.array(units, float)
            self._units = u
            self.ndim = u.shape[0]
            self.orbital_positions = list(orbital_positions)
            self.n_orbitals = len(self.orbital_positions)
            self.orbital_names = list(atom_orb_name or [""] * self.n_orbitals)

        @property
        def units(self):
            v = np.identity(3)
            v[:self.ndim, :self.ndim] = self._units
            return v

        def __eq__(self, o):
            return np.array_equal(self._units, o._units) and self.orbital_names == o.orbital_names
        __hash__ = None

    class BrillouinZone:
        def __init__(self, bl):
            self.bl = bl
            self.ndim = bl.ndim

        def __eq__(self, o):
            return self.bl == o.bl
        __hash__ = object.__hash__

    class TightBinding:
        def __init__(self, bl, hoppings):
            self.bl = bl
            self.displ_vec = [np.array(k) for k in hoppings]
            self.overlap_mat_vec = [np.array(m, complex) for m in hoppings.values()]

        def fourier(self, k):
            k = np.array(k, float)
            one = k.ndim == 1
            k = np.atleast_2d(k)
            r = np.zeros((k.shape[0],) + self.overlap_mat_vec[0].shape, complex)
            for d, t in zip(self.displ_vec, self.overlap_mat_vec):
                r += np.exp(2j * np.pi * (k @ d[:k.shape[1]]))[:, None, None] * t
            return r[0] if one else r

        def dispersion(self, k):
            return np.linalg.eigvalsh(self.fourier(k))

        def lattice_to_real_coordinates(self, x):
            x = np.array(x, float)
            return x @ self.bl.units[:x.shape[-1]]

        def __eq__(self, o):
            return len(self.displ_vec) == len(o.displ_vec) and all(np.array_equal(a, b) for a, b in zip(self.displ_vec + self.overlap_mat_vec, o.displ_vec + o.overlap_mat_vec))
        __hash__ = None
    for c in (BravaisLattice, BrillouinZone, TightBinding):
        c.__module__, c.__qualname__ = L.__name__, c.__name__
        setattr(L, c.__name__, c)
    L.dos, L.dos_patch = _no("dos"), _no("dos_patch")
    return L


def stand_ins(proc):
    m = {}
    h = types.ModuleType("h5")
    h.__path__ = []
    h.formats = Formats().module()
    m["h5"], m["h5.formats"] = h, h.formats
    m["triqs.gf.meshes"] = make_meshes(proc)
    f = types.ModuleType("triqs.gf.gf_fnt")
    for n in GF_FNT:
        setattr(f, n, _no(n))
    f.density = _density
    m["triqs.gf.gf_fnt"] = f
    f = types.ModuleType("triqs.gf.gf_factories")
    for n in FACTORIES:
        setattr(f, n, _no(n))
    m["triqs.gf.gf_factories"] = f
    f = types.ModuleType("triqs.gf.wrapped_aux")
    f._iadd_g_matrix_scalar, f._isub_g_matrix_scalar = _add(1), _add(-1)
    f._gf_invert_data_in_place = _invert
    f.set_from_gf_data_mul_LR = lambda a, l, b, r: a.__setitem__(Ellipsis, np.einsum("ab,xbc,cd->xad", l, b, r))
    f._make_gf_from_real_gf = _no("_make_gf_from_real_gf")
    m["triqs.gf.wrapped_aux"] = f
    f = types.ModuleType("triqs.gf.plot")
    f.dispatcher = _no("dispatcher")
    m["triqs.gf.plot"] = f
    m["triqs.lattice.lattice_tools"] = make_lattice_tools()
    proc.mods.update(m)
