import json,sys
DONE=sys.argv[1:]
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
"C30":"pure function of two byte arrays in memory: no schedule, clock, I/O, failure or second party for a simulator to control",
"C31":"pure text parsing and formatting of one record: no schedule, clock, I/O or failure for a simulator to control (its effects through files are covered by C01, C13, C14)",
"C32":"pure function of the password bytes: no schedule, clock, I/O or failure for a simulator to control (the answers built on it are covered by C10, C16)",
}
m={"version":1,"setup_cmd":"python3 tools/build.py","checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in DONE:
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json",
         "technique":"deterministic simulation with fault injection: seeded random search over schedules and faults",
         "level":"exploration",
         "level_note":"Seeded search: every run is one exactly repeatable execution of the real program under a simulated scheduler, clock, disk and network, judged by an independent reference model. Samples schedules, faults and workloads; no exhaustiveness. Trusts the simulator's models of the file system, sockets and pthreads, and gcc's TSan instrumentation for shared accesses."})
    else: m["not_applicable"].append({"property":i,"reason":NA.get(i,"not claimed yet: its scenario is being built")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
