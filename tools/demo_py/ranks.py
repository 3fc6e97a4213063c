"""run(n, main): main(rank) in n processes joined by the small mpi4py beside this file; True if all returned within the time."""
import importlib.machinery, importlib.util, os, signal, socket, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.getcwd(), "python")]


class _Template:  # modules the build makes from a .py.in without changes
    @staticmethod
    def find_spec(name, path=None, target=None):
        f = os.path.join(ROOT, *name.split(".")) + ".py.in"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=importlib.machinery.SourceFileLoader(name, f))


ROOT = os.path.join(os.getcwd(), "python")
sys.meta_path.insert(0, _Template)
sys.dont_write_bytecode = True
os.environ["OMPI_COMM_WORLD_RANK"] = "0"


def run(n, main, seconds=40):
    pairs = {(i, j): socket.socketpair() for i in range(n) for j in range(i + 1, n)}
    pids = []
    sys.stdout.flush()
    for r in range(n):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                d = tempfile.mkdtemp()
                socks = {}
                for (i, j), (a, b) in pairs.items():
                    if i == r:
                        socks[j] = a
                    elif j == r:
                        socks[i] = b
                    if i != r:
                        a.close()
                    if j != r:
                        b.close()
                from mpi4py import MPI
                MPI._setup(r, n, socks)
                os.chdir(d)
                main(r)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os.chdir("/")
                for f in os.listdir(d):
                    os.unlink(os.path.join(d, f))
                os.rmdir(d)
                os._exit(code)
        pids.append(pid)
    for a, b in pairs.values():
        a.close()
        b.close()
    end, ok, left = time.time() + seconds, True, list(pids)
    while left:
        for p in list(left):
            q, st = os.waitpid(p, os.WNOHANG)
            if q:
                left.remove(p)
                ok = ok and st == 0
        if left and (time.time() > end or not ok):
            ok = False
            time.sleep(0.5)
            for p in left:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            left = []
        time.sleep(0.01)
    return ok
