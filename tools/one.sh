#!/bin/bash
# one.sh ID SEED: generate the plan of a seed and run it with its log (development tool)
cd "$(dirname "$0")/.."
python3 - "$@" <<'P'
import sys; sys.path.insert(0,'.')
import check
r=check.Runner(check.CHECKS[sys.argv[1]])
t=r.gen(int(sys.argv[2])); print(t)
x=r.run_plan(t,True); print(x.get("log","")[-6000:] if isinstance(x.get("log"),str) else "\n".join(x["log"][-80:])); x.pop("log",None); x.pop("sched",None); x.pop("dec",None); print(x)
P
