"""Survey: which violation classes a check meets, and how often (development tool)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check, concurrent.futures as cf
pid = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 4000
r = check.Runner(check.CHECKS[pid])
base = int(sys.argv[3]) if len(sys.argv) > 3 else 500000000
ign = ["*"]
with cf.ThreadPoolExecutor(8) as ex:
    res = list(ex.map(lambda i: r.batch(base + i * 1000000, n // 8, 60, ign), range(8)))
seen = {}
cnt = {}
for x in res:
    for k, v in x["counters"].items(): cnt[k] = cnt.get(k, 0) + v
    for v in x["violations"]: seen.setdefault(v["cls"], []).append(v)
for c, l in sorted(seen.items()):
    print("%-28s %5s  seed %s: %s" % (c, cnt.get("violation " + c), l[0]["seed"], l[0]["msg"][:230]))
print({k: v for k, v in sorted(cnt.items()) if not k.startswith("violation")})
print("runs", sum(x["runs"] for x in res), "s", max(x["seconds"] for x in res))
