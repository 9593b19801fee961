#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM="deterministic cluster simulation of the real servers, trace monitors online"
NOTE=("Explores random hostile executions of the unmodified library code (all randomness from VERIF_SEED); the oracle judges every observed step. "
      "Not exhaustive. Trusts the simulation's link model (in order per link, losses announced before progress is demanded) and the independent storage model.")
T={
"C01":SIM+": decided sequences compared position by position",
"C02":SIM+": decided index and re-read content per server, across restarts",
"C03":SIM+": decided ids against append calls, content and leader order",
"C04":SIM+": decided prefix against the storages of all servers after every write",
"C05":SIM+": emitted acknowledgements against the sender's storage",
"C06":SIM+": stored promises, stale-round deliveries, round ownership",
"C07":SIM+": promises delivered and log content at takeover",
"C08":SIM+": pairwise log comparison after every write",
"C09":SIM+": bounded-progress monitor after stabilisation",
"C10":SIM+": bounded-progress monitor on fixed partial connectivity",
"C11":SIM+": leader stability, priority and takeover monitor",
"C12":SIM+": reconfiguration marker monitor",
"C13":SIM+": admission answers and bounded progress of reconfigurations",
"C14":SIM+": snapshots against the free fold of the decided prefix",
"C15":SIM+": trim answers and trimmed prefixes against all storages",
"C16":SIM+": reads against the log model",
"C17":"random operation histories on both storages, every result compared with a log model",
"C18":"reopenings, refused operations and kills at every write system call of a real process, storage compared with the acknowledged operations",
"C20":SIM+" with the unicache feature: stored and decided entries against appended ones",
"C21":"streams through encoder and decoders with hand-overs, decoded values compared",
"C22":"verdicts and values of random configurations in code and TOML against the documented rules, servers built from files monitored",
"C19":"fault enumeration: every storage write of a history crashes or fails, monitors judge the rest",
"C23":"round-trip and twin-run monitors over every emitted message",
"C24":"emission-time monitors on ticks, batching latency monitor",
"C25":SIM+": reported status against actual state of all servers",
"C26":"overflow- and assertion-checked build under hostile workloads, panic monitor",
"C28":"twin runs of hostile histories in builds with and without logging, digests compared; log file and terminal output compared with the records of a custom logger",
"C29":"encoded form of every field in streams and in the messages of real clusters against a model of the declared cache",
"C27":"the real dashboard on a pseudo terminal; the drawn screen is interpreted and compared with the reports",
}
LEVEL={"C19":"fault_enumeration","C18":"fault_enumeration"}
EXTRA={
"C28":"Explores random hostile executions twice, with and without the feature, and random clusters with one default logger. Not exhaustive.",
"C17":"Explores random histories on both back ends against an independent model. Not exhaustive. Single-threaded use.",
"C18":"Enumerates every write system call of each child history (die before, after, in the middle, device full) and explores random kills and reopenings. Process kills, not power failures; trusts RocksDB.",
"C21":"Explores random streams, copies and hand-overs through the public UniCache types. Not exhaustive.",
"C22":"Explores random valid and invalid configurations. Not exhaustive; ids that are zero, duplicated or huge are not generated.",
"C29":"Explores random streams through derived entry types and random stable clusters. Not exhaustive; ties among least frequently used values are left open.",
"C27":"Explores random clusters and report sequences on a real pseudo terminal; screens of large terminals are compared fully, small ones only for failures. Trusts the terminal interpreter of the harness.",
}
p=os.path.join(ROOT,"tools","manifest_extra.json")
props=[json.loads(l)["id"] for l in open(os.path.join(ROOT,"properties.jsonl"))]
NA={}
exec(open(os.path.join(ROOT,"tools","manifest_more.py")).read()) if os.path.exists(os.path.join(ROOT,"tools","manifest_more.py")) else None
checks=[]; na=[]
for i in props:
    if i in T:
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":"runtime monitoring: "+T[i],"level":LEVEL.get(i,"exploration"),
          "level_note":EXTRA.get(i,NOTE)})
    else:
        na.append({"property":i,"reason":NA.get(i,"check under construction")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
   "notes":"No hooks in /repo: everything is observed through the public API, the Storage trait and the messages. DESIGN.md describes each check."}
json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1); open(os.path.join(ROOT,"MANIFEST.json"),"a").write("\n")
