#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
NA = {
 "C17": "A pure function of header text, one row and options: no schedule, clock, I/O, fault or history decides it, so a simulator adds nothing over plain input generation. Chosen and detected time columns, units and formats do run inside the simulations of the other properties (C16 above all).",
 "C18": "Guessing delimiter, header and types is a pure function of the first two lines; nothing a simulator controls can change it. (That the guess does not depend on how those lines arrive is part of C03.)",
 "C19": "Comparison of two in-memory values: a pure function with no scheduling, time, I/O or faults.",
}
NOTE = {
 "C02": "Real library code (driver, header graph, merge join, splits, filters, sinks) built from random graphs over simulated sources and files; every recorder compared row by row with an independent reference interpretation of the graph.",
 "C10": "Peak of allocated memory and the distance between input consumed and output written are measured inside the simulation for two lengths of the same workload; bounds are fixed (160 KiB growth; 256 KiB per input plus 5 % read-ahead).",
 "C11": "As C02, with one error raised by a source, a node, a flush or a file sink at a random point.",
 "C20": "The real stream types of util/infistream; the web server around them is a stub that frames items the way actix-web 0.7 does (that server does not build with the installed compilers). The client is the real tool.",
 "C21": "Programs written against the library, as in /repo/examples, run in threads that take turns under a seeded scheduler at every system call, allocation and lock; each job is judged as if it were alone.",
 "C14": "The real main function of util/dcgen runs against simulated files; decoded independently and by chopper.",
}
DEF = "Seeded search, not a proof: the real command line tool runs in a simulated operating system; every read, write, open, listing, socket and clock call is decided by the seed; outcome and output compared with an executable reference model. Trusts the simulated system calls and the model."
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"./run.sh {p} quick",
        "thorough_cmd": f"./run.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection: seeded search over deliveries, schedules and faults, judged against a reference model",
        "level": "exploration",
        "level_note": NOTE.get(p, DEF),
    })
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the simulator replaces the operating system below the Rust standard library and uses the library's own traits. known_findings.txt lists recorded and repaired defects; './run.sh replay FILE' executes a replay file again."}
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("MANIFEST.json", "a").write("\n")
