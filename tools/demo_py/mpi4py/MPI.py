"""A small MPI for demonstrations: ranks are processes connected by socket pairs (see ranks.py)."""
import os, pickle, select, struct, time

_rank, _size, _socks = 0, 1, {}
_got = []  # (source, kind, value) received and not yet asked for


def _setup(rank, size, socks):
    global _rank, _size, _socks
    _rank, _size, _socks = rank, size, socks
    COMM_WORLD._bars = 0


def _put(dest, kind, obj):
    d = pickle.dumps((kind, obj))
    if dest == _rank:
        _got.append((_rank, kind, obj))
    else:
        _socks[dest].sendall(struct.pack("!Q", len(d)) + d)


def _read(s, n):
    d = b""
    while len(d) < n:
        x = s.recv(n - len(d))
        if not x:
            raise EOFError("peer gone")
        d += x
    return d


def _poll(timeout):
    byfd = {s.fileno(): r for r, s in _socks.items()}
    for fd in select.select(list(byfd), [], [], timeout)[0]:
        s = _socks[byfd[fd]]
        try:
            kind, obj = pickle.loads(_read(s, struct.unpack("!Q", _read(s, 8))[0]))
        except EOFError:
            del _socks[byfd[fd]]
            continue
        _got.append((byfd[fd], kind, obj))


def _find(source, kind):
    for i, (s, k, o) in enumerate(_got):
        if k == kind and (source is None or source < 0 or s == source):
            return i
    return None


def _take(source, kind):
    while True:
        i = _find(source, kind)
        if i is not None:
            return _got.pop(i)
        _poll(0.05)


class _Op:
    def __init__(self, f):
        self.f = f


SUM, MAX, MIN, PROD = _Op(lambda a, b: a + b), _Op(max), _Op(min), _Op(lambda a, b: a * b)
ANY_SOURCE = ANY_TAG = -1


class _Barrier:
    def __init__(self, n):
        self.n, self.seen = n, {_rank}

    def Test(self):
        _poll(0)
        for r in range(_size):
            i = _find(r, ("bar", self.n))
            if i is not None and r != _rank:
                _got.pop(i)
                self.seen.add(r)
        return len(self.seen) == _size
    test = Test


class Intracomm:
    _bars = 0

    def Get_rank(self):
        return _rank

    def Get_size(self):
        return _size
    rank, size = property(Get_rank), property(Get_size)

    def send(self, obj, dest, tag=0):
        _put(dest, "p2p", obj)

    def recv(self, buf=None, source=None, tag=None, status=None):
        return _take(source, "p2p")[2]

    def iprobe(self, source=None, tag=None, status=None):
        _poll(0)
        return _find(source, "p2p") is not None

    def Ibarrier(self):
        self._bars += 1
        for r in range(_size):
            if r != _rank:
                _put(r, ("bar", self._bars), None)
        return _Barrier(self._bars)

    def barrier(self):
        q = self.Ibarrier()
        while not q.Test():
            time.sleep(0.001)
    Barrier = barrier

    def bcast(self, obj, root=0):
        if _rank == root:
            for r in range(_size):
                if r != root:
                    _put(r, "bcast", obj)
            return obj
        return _take(root, "bcast")[2]

    def allgather(self, obj):
        for r in range(_size):
            if r != _rank:
                _put(r, "all", obj)
        return [obj if r == _rank else _take(r, "all")[2] for r in range(_size)]

    def allreduce(self, x, op=SUM):
        v = self.allgather(x)
        y = v[0]
        for z in v[1:]:
            y = op.f(y, z)
        return y


COMM_WORLD = Intracomm()
