#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py ID [--tier quick|thorough]      search; exit 0 held / 1 VIOLATION / 3 error of the check
  check.py ID --replay FILE                re-execute a replay file
  check.py ID --selftest N                 determinism: N seeds, each run in two fresh processes, logs compared
"""
import hashlib, itertools, json, os, shutil, subprocess, sys, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, WORKLOADS  # noqa: E402

BUILD = os.path.join(HERE, ".build")
NPROC = os.cpu_count() or 4
TRIES = 400  # executions spent on minimisation at most


def die(msg, code=3):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


# ---------------------------------------------------------------------------------------------- build
def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dn, fn in os.walk(root):
                dn.sort()
                if "__pycache__" in d:
                    continue
                files += [os.path.join(d, f) for f in sorted(fn) if not f.endswith(".pyc")]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


CXX = os.environ.get("CXX", "g++")
CORE_FLAGS = ["-std=c++20", "-O1", "-g0"]
WL_FLAGS = ["-std=c++23", "-O1", "-g0", "-DNDEBUG", "-fPIC", "-fno-gnu-unique", "-fvisibility=hidden", "-w", "-fmax-errors=20"]


def run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, cmd


def build_cpp(wl):
    """Compile the runner and the workload (real TRIQS sources from REPO's working tree + stand-ins)."""
    w = WORKLOADS[wl]
    key = tree_hash([os.path.join(REPO, "c++", "triqs"), os.path.join(HERE, "sim"), os.path.join(HERE, "checks.py")])
    out = os.path.join(BUILD, wl + "-" + key)
    exe, so = os.path.join(out, "simrun"), os.path.join(out, "wl.so")
    if os.path.exists(exe) and os.path.exists(so):
        return exe, so
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    # headers TRIQS' own build would generate
    gen = os.path.join(tmp, "gen", "triqs")
    os.makedirs(gen, exist_ok=True)
    with open(os.path.join(gen, "version.hpp"), "w") as f:
        f.write('#pragma once\n#include <string>\n#define TRIQS_VERSION "0"\nnamespace triqs { const std::string git_hash = "sim"; const std::string version = "sim"; }\n')
    inc = ["-I" + os.path.join(HERE, "sim", "core"), "-I" + os.path.join(HERE, "sim", "stubs"), "-I" + os.path.join(tmp, "gen"), "-I" + os.path.join(REPO, "c++")]
    jobs = [[CXX] + CORE_FLAGS + ["-rdynamic", "-Wl,-z,now", os.path.join(HERE, "sim", "core", "core.cpp"), "-o", os.path.join(tmp, "simrun"), "-ldl"]]
    objs = []
    srcs = [os.path.join(HERE, "sim", "workloads", s) for s in w["src"]] + [os.path.join(REPO, "c++", "triqs", s) for s in w.get("repo_src", [])]
    for i, s in enumerate(srcs):
        o = os.path.join(tmp, "o%d.o" % i)
        objs.append(o)
        jobs.append([CXX] + WL_FLAGS + w.get("flags", []) + inc + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for rc, txt, cmd in ex.map(run_cc, jobs):
            if rc:
                shutil.rmtree(tmp, ignore_errors=True)
                die("build failed: %s\n%s" % (" ".join(cmd), txt[-6000:]))
    rc, txt, cmd = run_cc([CXX, "-shared", "-Wl,-z,now", "-o", os.path.join(tmp, "wl.so")] + objs + w.get("libs", []))
    if rc:
        shutil.rmtree(tmp, ignore_errors=True)
        die("link failed: %s\n%s" % (" ".join(cmd), txt[-4000:]))
    for o in objs:
        os.unlink(o)
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.rename(tmp, out)
    return exe, so


WORKER = itertools.count()  # simulated processes written in Python hand over between threads: faster on one CPU


class Runner:
    def __init__(self, chk):
        self.wl = chk["workload"]
        self.cfg = dict(chk.get("cfg", {}))
        w = WORKLOADS[self.wl]
        self.env = dict(os.environ)
        self.env.pop("SIM_NOASLR_DONE", None)
        self.env["OPENBLAS_NUM_THREADS"] = "1"
        if w["kind"] == "cpp":
            exe, so = build_cpp(self.wl)
            self.base = [exe, "--lib", so, "--workload", self.wl]
        else:
            self.base = [w.get("python", sys.executable), "-B", os.path.join(HERE, "sim", "py", w["script"])]
            self.env["PYTHONHASHSEED"] = "0"
            self.env["PYTHONDONTWRITEBYTECODE"] = "1"
            self.env["VERIF_REPO"] = REPO

    def cfgargs(self):
        r = []
        for k, v in self.cfg.items():
            r += ["--cfg", "%s=%d" % (k, v)]
        return r

    def gen(self, seed):
        p = subprocess.run(self.base + self.cfgargs() + ["--gen", str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=self.env)
        if p.returncode:
            die("plan generation failed: " + p.stderr[-2000:])
        return p.stdout

    def run_plan(self, text, log=False):
        path = os.path.join(BUILD, "plan-%d-%d.txt" % (os.getpid(), time.monotonic_ns()))
        os.makedirs(BUILD, exist_ok=True)
        with open(path, "w") as f:
            f.write(text)
        try:
            p = subprocess.run(self.base + ["--plan", path] + (["--log"] if log else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=self.env, timeout=120)
            if p.returncode:
                die("plan execution failed (%d): %s" % (p.returncode, p.stderr[-2000:]))
            return json.loads(p.stdout)
        finally:
            os.unlink(path)

    def batch(self, seed0, count, limit, ignore, dup=16):
        path = os.path.join(BUILD, "batch-%d-%d.json" % (os.getpid(), seed0))
        os.makedirs(BUILD, exist_ok=True)
        cmd = self.base + self.cfgargs() + ["--batch", str(seed0), str(count), "--limit", str(limit), "--out", path, "--dup", str(dup)]
        for c in ignore:
            cmd += ["--ignore", c]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(self.env, SIM_CPU=str(next(WORKER))))
        if not os.path.exists(path):
            die("batch failed (%d): %s %s" % (p.returncode, p.stdout[-1000:], p.stderr[-3000:]))
        with open(path) as f:
            r = json.load(f)
        os.unlink(path)
        return r


# ---------------------------------------------------------------------------------------------- minimisation
def split_plan(text):
    head, ops, faults, sched = [], [], [], []
    for ln in text.splitlines():
        w = ln.split(" ", 1)[0]
        if w == "op":
            ops.append(ln)
        elif w == "fault":
            faults.append(ln)
        elif w in ("sched", "dec"):
            sched.append(ln)
        elif ln.strip() and not ln.startswith("#"):
            head.append(ln)
    return head, ops, faults, sched


def join_plan(head, ops, faults, sched):
    return "\n".join(head + ops + faults + sched) + "\n"


def ddmin(items, test, budget):
    n = 2
    while len(items) >= 1 and budget[0] > 0:
        size = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items) and budget[0] > 0:
            cand = items[:i] + items[i + size:]
            budget[0] -= 1
            if test(cand):
                items = cand
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


def minimise(r, text, cls, deadline):
    budget = [TRIES]
    head, ops, faults, sched = split_plan(text)

    def fails(h, o, f, s):
        if time.time() > deadline:
            budget[0] = 0
            return False
        x = r.run_plan(join_plan(h, o, f, s))
        return x["status"] == 1 and x["cls"] == cls

    # schedule first: quiet, else the explicit list of decisions
    if fails(head, ops, faults, ["sched list"]):
        sched = ["sched list"]
    else:
        x = r.run_plan(join_plan(head, ops, faults, sched))
        decs = ["dec " + ln for ln in x.get("dec", "").splitlines() if ln.strip()]
        if decs and fails(head, ops, faults, ["sched list"] + decs):
            sched = ["sched list"] + decs
    faults = ddmin(faults, lambda c: fails(head, ops, c, sched), budget)
    ops = ddmin(ops, lambda c: fails(head, c, faults, sched), budget)
    if sched[0] == "sched list" and len(sched) > 1:
        d = ddmin(sched[1:], lambda c: fails(head, ops, faults, ["sched list"] + c), budget)
        sched = ["sched list"] + d
    # shrink arguments of faults and ops towards 0
    for lst, which in ((faults, "f"), (ops, "o")):
        for i in range(len(lst)):
            w = lst[i].split(" ")
            start = 2 if which == "f" else 3
            for j in range(start, len(w)):
                try:
                    v = int(w[j])
                except ValueError:
                    continue
                for nv in (0, 1, v // 2):
                    if abs(nv) < abs(v) and budget[0] > 0:
                        w2 = list(w)
                        w2[j] = str(nv)
                        c = list(lst)
                        c[i] = " ".join(w2)
                        budget[0] -= 1
                        if fails(head, c if which == "o" else ops, c if which == "f" else faults, sched):
                            lst[i] = c[i]
                            w = w2
                            break
    return join_plan(head, ops, faults, sched)


# ---------------------------------------------------------------------------------------------- known findings
def known(pid):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == pid]


# ---------------------------------------------------------------------------------------------- main
def main():
    args = sys.argv[1:]
    if args == ["--setup"]:  # nothing is kept between checks: each builds what it needs from the current tree
        for c in (CXX,):
            subprocess.run([c, "--version"], stdout=subprocess.DEVNULL, check=True)
        sys.exit(0)
    if not args or args[0] not in CHECKS:
        die("usage: check.py ID; known: " + " ".join(CHECKS))
    pid = args[0]
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    r = Runner(chk)
    tb = time.time() - t0

    if "--replay" in args:
        path = args[args.index("--replay") + 1]
        with open(path) as f:
            text = f.read()
        x = r.run_plan(text, log="--log" in args)
        if "--log" in args:
            print(x.get("log", ""))
        if x["status"] == 1:
            print("reproduced: [%s] %s" % (x["cls"], x["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            sys.exit(1)
        if x["status"] == 0:
            print("replay: the property held")
            sys.exit(0)
        die("replay: " + x["msg"])

    if "--selftest" in args:
        n = int(args[args.index("--selftest") + 1])
        bad = 0

        def one(s):
            a = r.gen(s)
            x, y = r.run_plan(a, log=True), r.run_plan(a, log=True)
            return s, x["hash"] == y["hash"] and x.get("log") == y.get("log") and x["status"] == y["status"], x["status"], x["msg"]

        for workers in (1, 4, NPROC):
            with cf.ThreadPoolExecutor(workers) as ex:
                for s, same, st, msg in ex.map(one, range(seed * 1000, seed * 1000 + n)):
                    if not same:
                        bad += 1
                        print("seed %d: two runs differ" % s)
        print("selftest %s: %d seeds, each run 6 times in fresh processes at 3 worker counts, %d divergences" % (pid, n, bad))
        sys.exit(3 if bad else 0)

    runs, limit = chk["runs"][tier], chk["limit"][tier]
    kn = known(pid)
    ignore = [k["cls"] for k in kn]
    for k in kn:
        with open(os.path.join(HERE, k["replay"])) as f:
            x = r.run_plan(f.read())
        if x["status"] == 1 and x["cls"] == k["cls"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    per = (runs + NPROC - 1) // NPROC
    base = seed * 100000000
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda i: r.batch(base + i * 1000000, per, limit, ignore), range(NPROC)))

    counters, scheds, traces, states = {}, set(), set(), set()
    viols = []
    for x in res:
        for k, v in x["counters"].items():
            counters[k] = counters.get(k, 0) + v
        scheds |= set(x["sched_hashes"])
        traces |= set(x["trace_hashes"])
        states |= set(x["state_hashes"])
        viols += x["violations"]
    nruns = sum(x["runs"] for x in res)
    wall_run = max(x["seconds"] for x in res)
    hard = [v for v in viols if v.get("harness")]
    real = [v for v in viols if not v.get("harness") and v["cls"] not in ignore]

    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault ")}
    probes = {k[6:]: v for k, v in counters.items() if k.startswith("probe ")}
    w = WORKLOADS[chk["workload"]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": nruns,
            "distinct_nontrivial": len(traces),
            "rule": chk["rule"] + " A run is one seed = one plan (operations, faults, schedule); distinct: its complete event log (every "
                    "operation, message, delay, fault and observed result, with simulated times) differs from every other run's; plans without operations are not generated.",
            "samples": [x["sample"] for x in res if x["sample"]][:5],
            "simulated_runs": nruns,
            "seeds_per_hour": int(nruns / max(wall_run, 1e-6) * 3600),
            "simulated_seconds": round(sum(x["sim_seconds"] for x in res), 3),
            "scheduling_steps": sum(x["sched_steps"] for x in res),
            "instructions_single_stepped": sum(x.get("instructions_stepped", 0) for x in res),
            "faults_injected": faults,
            "probes": probes,
            "distinct_interleavings": len(scheds),
            "distinct_interleavings_measure": "distinct sequences of which simulated process/thread ran at each scheduling step, plus the instruction at which each signal was delivered",
            "distinct_states": len(states),
            "determinism_reruns": sum(x["dup"] for x in res),
            "real_code": w["real"],
            "stub_code": w["stub"],
        },
        "assumptions": chk.get("assumptions", []) + w.get("assumptions", []),
        "wall_s": 0.0, "violations": len(real),
    }

    def write_ev():
        ev["wall_s"] = round(time.time() - t0, 2)
        ev["coverage"]["build_s"] = round(tb, 2)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    if hard:
        write_ev()
        die("seed %s: %s" % (hard[0]["seed"], hard[0]["msg"]))
    if real:
        v = min(real, key=lambda v: v["seed"])
        print("seed %d violates [%s]: %s" % (v["seed"], v["cls"], v["msg"]), flush=True)
        text = r.gen(v["seed"])
        a, b = r.run_plan(text), r.run_plan(text)
        if not (a["status"] == b["status"] == 1 and a["cls"] == b["cls"] == v["cls"] and a["hash"] == b["hash"]):
            write_ev()
            die("violation of seed %d does not reproduce in fresh processes: %s / %s" % (v["seed"], (a["status"], a["cls"]), (b["status"], b["cls"])))
        small = minimise(r, text, v["cls"], time.time() + (60 if tier == "quick" else 300))
        c = r.run_plan(small)
        if not (c["status"] == 1 and c["cls"] == v["cls"]):
            small, c = text, a
        d = os.path.join(HERE, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.plan" % (pid, v["seed"]))
        with open(path, "w") as f:
            f.write("# property %s, class %s\n# %s\n# found with seed %d; re-run: python3 check.py %s --replay %s\n" % (pid, v["cls"], c["msg"].replace("\n", " "), v["seed"], pid, os.path.relpath(path, HERE)))
            f.write(small)
        h, o, f_, s = split_plan(small)
        ev["coverage"]["minimised"] = {"ops": len(o), "faults": len(f_), "schedule_decisions": max(0, len(s) - 1), "class": v["cls"], "message": c["msg"]}
        write_ev()
        print("minimised: %d operations, %d faults, %d schedule decisions: [%s] %s" % (len(o), len(f_), max(0, len(s) - 1), c["cls"], c["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        sys.exit(1)
    missed = [p for p in chk.get("must_reach", []) if not probes.get(p) and not faults.get(p)]
    ev["coverage"]["probes_not_reached"] = missed
    write_ev()
    print("%s: held on %d simulated runs (%d distinct, %d interleavings, %.1f simulated s, faults %s) in %.1f s (build %.1f s)" % (
        pid, nruns, len(traces), len(scheds), ev["coverage"]["simulated_seconds"], faults, time.time() - t0, tb))
    sys.exit(0)


if __name__ == "__main__":
    main()
