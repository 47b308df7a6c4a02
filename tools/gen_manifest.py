#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the notes below."""
import json, os
here=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
T="deterministic simulation with fault injection: seeded search over simulated histories; "
tech={
"C01":"every order's effects judged against recorded price and arrival order",
"C02":"fills and postings of every order judged against its limit and caps",
"C03":"every fill and every stop of matching judged against exact arithmetic",
"C04":"per-order conservation over the recorded history",
"C05":"book invariant after every operation",
"C06":"identifier history over market lifetimes, including aged markets",
"C07":"summaries judged against events and book accounts",
"C08":"self-trade outcomes judged per meeting",
"C09":"evictions judged on full sides against recorded order",
"C10":"posting outcome judged against a reference matcher",
"C11":"residues judged at every fill, book invariant after every operation",
"C12":"tick rule judged on every order and resting price, the rounding helper on prices around them",
"C13":"cancellations (late, repeated, invented) judged by frame conditions",
"C14":"adversary forks the ledger with substituted accounts at points of every history",
"C15":"creation attempts with one defect each, before, during and after a market's life",
"C16":"close attempts and post-close use at points of every history, balances compared",
"C17":"ledger forked and a side filled to the brim at points of every history",
"C18":"callback bytes compared with the recorded owners' everywhere they appear",
"C19":"replicas with forks, crashes, restarts and nested executions compared byte for byte",
"C20":"event log compared with the recorded production order under stalled and racing consumers",
"C21":"orders against nearly full queues judged against a reference matcher",
"C22":"ledger forked, faults stopped, drain and close within the bound",
"C23":"published readers compared with the independently decoded accounts",
"C24":"a model caller settles from summaries and consumed events; conservation checked",
"C25":"client-built instructions compared with the direct call on a fork",
"C26":"the TypeScript readers run on recorded ledger snapshots and compared with the independently decoded accounts",
"C29":"damaged and altered instruction bytes sent on forks at points of every history, judged by an independent decoder and the direct call",
"C30":"the allocator is a seam: every instruction's requests are charged to a 32 KiB heap, on deep books too",
"C31":"transactions built by the TypeScript client executed on forks of the simulated ledger and compared with ordinary creations",
"C27":"outcome of every operation compared with what the reference admits",
}
na={}
note="Exploration: seeded search over %s, no exhaustiveness claimed. Trusts: the simulated runtime's rules (atomic transactions, ownership, read-only marks, lamport balance), the independent account decoder and the reference in /verif/sim, and that machine code for the host behaves like that for the chain. Runs are split over three builds: with overflow checks, without, and without plus the program's target_os=\"solana\" lines."
scope={"C19":"transaction histories, block trees, crash points and replica schedules","C14":"histories and account substitutions","C31":"market parameters and ledger states (bn.js, borsh and web3.js replaced by small stand-ins)","C26":"ledger histories and snapshot points (bn.js, borsh and web3.js are replaced by small stand-ins written for this check, the reader code is real)"}
checks=[]
for p in props:
    i=p["id"]
    if i in na: continue
    checks.append({"property":i,"quick_cmd":f"bash /verif/check.sh {i}","thorough_cmd":f"bash /verif/check.sh {i}","evidence_file":f"evidence/{i}.json","technique":T+tech[i],"level":"exploration","level_note":note%scope.get(i,"histories of simulated markets under faults")})
json.dump({"version":1,"setup_cmd":"bash /verif/setup.sh","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in sorted(na.items())],
 "notes":"No hooks were needed in /repo: the system-call stubs, the accounts and the caller's callback type are the seams. Commits added to /repo are repairs only (see KNOWN_FINDINGS.txt). Replay a violation with: bash /verif/replay.sh FILE"},
 open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(checks),sorted(na))
