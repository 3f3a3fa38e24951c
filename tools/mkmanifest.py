#!/usr/bin/env python3
"""Writes MANIFEST.json. CHECKED: what is claimed; NA: why not."""
import json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKED={}
def c(ids,tech,note):
    for i in ids.split(): CHECKED[i]=(tech,note)
COMMON=("Seeded search, not a proof: it shows the property held on the runs the evidence file counts. One seed is one exactly "
 "repeatable run of the real pasture code; scheduling, entropy, clocks, allocation, panics in caller code and I/O results come from the seed. "
 "Trusts the reference model in this repository's checks-*/src and the simulator in sim/.")
SIM="deterministic simulation: seeded schedules and fault injection, "
c("C01",SIM+"refinement of every buffer against a model container",COMMON)
c("C02",SIM+"crash point at every allocation and caller callback, atomicity against before/after states",COMMON)
c("C03",SIM+"slices against a model of index windows",COMMON)
c("C04",SIM+"parallel and sequential iteration under seeded schedules against a model",COMMON)
c("C05",SIM+"layout conversion with injected source failures against a model of per-attribute conversion",COMMON)
c("C06",SIM+"collecting from misbehaving iterators against a model",COMMON)
c("C07",SIM+"attribute-wise pushing with failures against a model of committed attributes",COMMON)
c("C08",SIM+"seeded interleavings of concurrent readers against the answers of a lone reader",COMMON)
c("C09",SIM+"seeded schedules, pool sizes and random streams of real rayon segmentations, checked against an exact inlier model",COMMON)
c("C10",SIM+"controlled random streams under seeded schedules, with the recorded hypotheses and statistical bounds with negligible error as oracle",COMMON)
c("C11",SIM+"failures injected into point reads inside the workers, liveness within a bounded number of steps",COMMON)
c("C12",SIM+"hash seeds, storage kinds and failing reads against a model of the cell reductions",COMMON)
c("C13",SIM+"hash seeds, memory placement and failing reads with a geometric oracle for closed enclosing surfaces",COMMON)
c("C14",SIM+"the same analysis under different storage, placement, hash seeds, histories and failures",COMMON)
c("C15",SIM+"a simulated device with short and failing writes, flush failures and full disk; the file parsed by a parser of its own and compared with a model",COMMON)
c("C16",SIM+"a simulated device with short and failing reads and corrupted files, against files encoded by an encoder of its own",COMMON)
c("C17",SIM+"a simulated device with short and failing writes, flush failures and full disk; the text compared with a model of the lines",COMMON)
c("C18",SIM+"a simulated device with short and failing reads and malformed lines, against the values the text was generated from",COMMON)
IOCOMMON=COMMON+" Real LAZ compression is replaced by a stand-in that stores the points; the las crate's header types by a stand-in."
c("C19",SIM+"a simulated device with short and failing writes, seeks and flushes and full disk; the file parsed by a parser of its own and compared with a model",IOCOMMON)
c("C20",SIM+"a simulated device with short and failing reads and seeks, truncated files and unaligned memory, against files encoded by an encoder of its own",IOCOMMON)
c("C28",SIM+"a simulated file system behind open, read, write and lseek with refusals, failures, full disk and crashes; refinement of the in-memory readers and writers",IOCOMMON)
SETUP="bash tools/build.sh checks-core && bash tools/build.sh checks-io"
exec(open(os.path.join(root,"tools","claims.py")).read()) if os.path.exists(os.path.join(root,"tools","claims.py")) else None
NA={}
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
PURE="The behaviour is a pure function of its arguments: no schedule, time, I/O, allocation failure or second party can change its result, so a simulator has nothing to control; input-space search or proof would be a different family."
REASON=globals().get("REASON",{})
checks=[]
for p in props:
    i=p["id"]
    if i in CHECKED:
        t,n=CHECKED[i]
        checks.append({"property":i,"quick_cmd":f"./run.sh check {i}","thorough_cmd":f"./run.sh check {i}","technique":t,"level":"exploration","level_note":n})
    else:
        NA[i]=REASON.get(i, PURE if int(i[1:])>20 else "No check has been built yet.")
m={"version":1,"setup_cmd":globals().get("SETUP","bash tools/build.sh checks-core"),"checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"Known findings: known_findings.txt. No hooks in /repo: every seam is interposed outside of it (libc symbols, the allocator, the coverage instrumentation of the compiler, the traits pasture takes from its callers). ./run.sh replay FILE reproduces a violation; ./run.sh seed ID SEED runs one seed."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
