#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl; the parts that are decided per property stand here.
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
CHECKS = {
 "C01": ("seeded search over worker interleavings; groups compared with a single-threaded reference", "datasets up to 7x16 values, up to 16 workers, 5 scheduling policies, spurious wakeups, clock disturbances"),
 "C02": ("seeded search over histories of grouping, saving and reloading; partition and bound recomputed from the dumped groups", "datasets up to 6x12, up to 7 operations, up to 5 workers"),
 "C03": ("allocation and thread-start failures at seeded positions of grouping under seeded schedules; state snapshot before and after, retry once faults stop", "up to 2 faults per run on datasets up to 4x9"),
 "C04": ("seeded clock behaviours (start, frozen, steps, jumps during the call); groups compared with an undisturbed clock", "jumps from -1 h to +400 days, datasets up to 6x14"),
 "C05": ("save/load/restart histories over the simulated disk with split and interrupted transfers; groups and answers compared with those saved", "up to 8 operations, process restarts, datasets up to 12x30"),
 "C06": ("open, write, close failures and full disks at seeded positions of every kind of save; file content re-read and compared", "files up to some 10 KB, up to 2 faults per run"),
 "C07": ("crashes while saving (process and power loss), altered and foreign files, read errors; loads judged against what was saved", "19 kinds of damage, up to 4 per run, process restarts"),
 "C08": ("failures of every kind in histories of all operations; snapshot comparison around each failure and a twin run without the failed operations", "up to 15 operations and 4 faults"),
 "C09": ("split, interrupted and failing opens, reads, seeks and allocations while loading; result compared with a reference parser", "files up to 60x300 values"),
 "C10": ("chains of load, normalize, save, restart, reload over split and interrupted transfers; files re-read by a reference parser and by the library", "datasets up to 40x200"),
 "C11": ("histories of all operations with failures against a reference model of the session", "up to 19 operations, up to 2 sessions, up to 3 faults"),
 "C12": ("histories with failures; every answer compared with that of a fresh process brought into the same state, repeated queries measured for growth", "up to 18 operations, up to 12 compared queries per run"),
 "C13": ("query histories under seeded schedules and memory contents; every entry recomputed through the distance query", "datasets up to 5x9, k up to 60"),
 "C14": ("histories with failures repeated five times in one process; simulated heap, files and threads compared between repetitions, heap guarded against misuse", "up to 10 operations, up to 2 fault positions"),
 "C15": ("happens-before race detection on every simulated interleaving of grouping calls", "datasets up to 7x16, up to 16 workers"),
 "C16": ("the command-line program on a simulated terminal with failures during commands; transcript and state judged after every command", "up to 15 commands and 2 faults"),
 "C17": ("two or three sessions on their own threads under seeded schedules; each compared with its run alone, race detection across sessions", "up to 8 operations per session"),
}
NA = {
 "C20": "pure function of its arguments: no schedule, clock, I/O or failure takes part, so simulation decides nothing here that an ordinary input generator would not",
 "C21": "pure numerical relation between functions of two series; no concurrency, time, I/O or multi-party behaviour to simulate",
 "C22": "pure function of two series; no concurrency, time, I/O or multi-party behaviour to simulate",
 "C23": "pure search over given data; its history and failure aspects are covered by C12 and C13, exactness itself has nothing to schedule or to fail",
 "C24": "pure arithmetic on a loaded dataset; that it survives histories, saving and reloading is part of C10 and C11",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the simulator takes its place below the C library and compiler instrumentation interfaces (see DESIGN.md). A replay file is run with ./build/genexsim replay FILE after ./build.sh."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH + t, "level": "exploration",
                            "level_note": "Seeded search, not exhaustive. Bounds: " + n + "."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
