"""Stand-in for the compiled module triqs.operators.operators: polynomials of fermionic operators, normal ordered."""
import types


def _order(w):
    """a product of operators (dagger, indices) as a sum of normal ordered ones: c^+ first, in ascending order, then c, descending"""
    todo, out = [(list(w), 1)], {}
    while todo:
        w, s = todo.pop()
        zero = False
        i = 0
        while i + 1 < len(w):
            a, b = w[i], w[i + 1]
            if a == b:
                zero = True
                break
            if a[0] and not b[0] or a[0] and b[0] and a[1] < b[1] or not a[0] and not b[0] and a[1] > b[1]:
                i += 1
                continue
            if not a[0] and b[0] and a[1] == b[1]:
                todo.append((w[:i] + w[i + 2:], s))
            w = w[:i] + [b, a] + w[i + 2:]
            s = -s
            i = max(0, i - 1)
        if not zero:
            k = tuple(w)
            out[k] = out.get(k, 0) + s
    return out


class Operator:
    __array_ufunc__ = None

    def __init__(self, x=0, t=None):
        self._t = t if t is not None else ({(): complex(x)} if x else {})

    @staticmethod
    def _of(x):
        return x if isinstance(x, Operator) else Operator(complex(x))

    def __add__(self, o):
        t = dict(self._t)
        for k, v in Operator._of(o)._t.items():
            t[k] = t.get(k, 0) + v
            if abs(t[k]) < 1e-14:
                del t[k]
        return Operator(t=t)
    __radd__ = __add__

    def __iadd__(self, o):
        for k, v in Operator._of(o)._t.items():
            self._t[k] = self._t.get(k, 0) + v
            if abs(self._t[k]) < 1e-14:
                del self._t[k]
        return self

    def __neg__(self):
        return Operator(t={k: -v for k, v in self._t.items()})

    def __sub__(self, o):
        return self + (-Operator._of(o))

    def __rsub__(self, o):
        return Operator._of(o) - self

    def __mul__(self, o):
        if not isinstance(o, Operator):
            o = complex(o)
            return Operator(t={k: v * o for k, v in self._t.items() if abs(v * o) > 1e-14})
        t = {}
        for a, x in self._t.items():
            for b, y in o._t.items():
                for k, s in _order(a + b).items():
                    t[k] = t.get(k, 0) + s * x * y
        return Operator(t={k: v for k, v in t.items() if abs(v) > 1e-14})

    def __rmul__(self, o):
        return self * o

    def __truediv__(self, o):
        return self * (1 / complex(o))

    def is_zero(self):
        return not self._t

    def __iter__(self):
        for k in sorted(self._t):
            yield [(d, list(i)) for d, i in k], self._t[k]

    @property
    def real(self):
        return Operator(t={k: complex(v.real) for k, v in self._t.items() if v.real})

    @property
    def imag(self):
        return Operator(t={k: complex(v.imag) for k, v in self._t.items() if v.imag})


def c(*i):
    return Operator(t={((False, i),): 1 + 0j})


def c_dag(*i):
    return Operator(t={((True, i),): 1 + 0j})


def n(*i):
    return Operator(t={((True, i), (False, i)): 1 + 0j})


def dagger(o):
    t = {}
    for k, v in o._t.items():
        for w, s in _order([(not d, i) for d, i in reversed(k)]).items():
            t[w] = t.get(w, 0) + s * v.conjugate()
    return Operator(t=t)


def module():
    m = types.ModuleType("triqs.operators.operators")
    m.Operator, m.c, m.c_dag, m.n, m.dagger = Operator, c, c_dag, n, dagger
    m.__all__ = ["Operator", "c", "c_dag", "n", "dagger"]
    return m
