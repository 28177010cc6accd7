#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC=os.path.exists(os.path.join(H,"mc","Cargo.toml"))
props=[json.loads(l) for l in open(os.path.join(H,"properties.jsonl"))]
BFS="bounded-exhaustive explicit-state exploration of the real code against a reference model"
HIST="exhaustive enumeration of operation histories on the real code, every step compared with a reference model"
PROG="exhaustive enumeration of expression graphs run on the real code, compared with a reference reverse-mode model"
SCHED="stateless model checking of the real code: all schedules up to a preemption bound under a controlled scheduler"
TECH={**{f"C{i:02d}":BFS for i in range(1,15)},"C12":PROG,**{f"C{i:02d}":HIST for i in (6,15,16,17,19,20,21)},"C18":BFS,
      "C22":"explicit-state cycle check (heap fixpoint): every cycle of operations up to a length run on the real code, live memory compared between iterations",
      **{f"C{i}":SCHED for i in range(23,28)}}
N_SEQ="Every shape, window, operation, composition or history within the bounds given in DESIGN.md is executed on the real code (public API, no hooks) and compared with a plain reference model; no sampling. Trusts the reference model; says nothing beyond the bounds or about element values outside the alphabet."
N_MC="Every schedule of the stated bodies within the preemption bound (and every choice of worker and message order) is executed on the real code compiled against a controlled std::sync, rayon and crossbeam. Trusts that runtime (checked against the real libraries by litmus programs) and assumes sequentially consistent memory; bodies have 2-3 threads and small operands."
N_22="Every cycle over the operation alphabet up to the stated length is repeated on the real code under a counting allocator and must reach a fixpoint of live memory and of work per cycle. Cycles longer than the bound are not covered."
checks=[];na=[]
for p in props:
    i=p["id"]
    if int(i[1:])>21 and not MC:
        na.append(dict(property=i,reason="the schedule explorer that decides it is being built")); continue
    checks.append(dict(property=i,quick_cmd=f"python3 check.py {i}",thorough_cmd=f"python3 check.py {i} --tier thorough",evidence_file=f"evidence/{i}.json",
        technique=TECH[i],level="model_checking",level_note=N_22 if i=="C22" else N_MC if int(i[1:])>21 else N_SEQ))
m=dict(version=1,setup_cmd="python3 check.py --build",hooks=dict(guard="none",enable="no hooks: the checks use the public API; the schedule explorer substitutes std::sync, rayon and crossbeam at build time (mc/rustc-wrapper.sh, [patch])",source_commits=[]),
  checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(H,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks")
