"""Writes MANIFEST.json from the property modules which exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "P01": "every system call of the tool and its streams is simulated; errors, full disks, vanished readers, signals and line-level failures are placed by seed and exit status compared with what was delivered",
    "P02": "crash consistency: at every system call the file and every state a power cut could leave are compared with the old and the new program",
    "P03": "whole simulated disk compared before and after runs under faults",
    "P04": "same job through many transports, fragmentations and interrupted calls, compared byte for byte",
    "P05": "several real tools as simulated processes over bounded pipes under a seeded scheduler, with deaths, stalls and errors",
    "P06": "several real library jobs in one process, pre-empted at source lines by a seeded scheduler, compared with solo runs",
    "P07": "histories of jobs, failed and aborted ones included, compared with fresh runs and across hash seeds",
    "P08": "streams cut, reloaded and tracked at seeded points against a reference printer",
    "P09": "damaged lines offered at seeded points of a stream; state and structure compared before and after",
    "P10": "seeded edit histories, refused edits included, against a plain list model",
    "P11": "walks and loads with visitors and callbacks failing at seeded points; announcements checked against the program",
    "P12": "delivered program judged by its own printed heights, under I/O schedules and faults",
    "P13": "two simulated printers in lock step, power cut anywhere, under I/O schedules and faults",
    "P14": "two simulated printers in lock step comparing filament, under I/O schedules and faults",
    "P15": "two simulated printers in lock step, arcs compared with the replaced moves, under I/O schedules and faults",
    "P16": "two simulated printers in lock step, displacement bounded by independently found loops, under I/O schedules and faults",
    "P17": "temperature commands judged against heights of a simulated print, under I/O schedules and faults",
    "P18": "line-by-line alignment of delivered and original program, under I/O schedules and faults",
    "P26": "torn and interrupted transfers; corresponding points of the copies of one loop in each delivered program are compared",
    "P25": "one process with all options against a pipeline of processes with one option each, scheduled call by call",
    "P24": "torn and interrupted transfers; the arcs and the moves left over in each delivered program are counted against the circles it was made of",
    "P23": "2-4 whole programs interleaved at every system call by a seeded scheduler, on shared files; the files are compared after every call",
    "P20": "two hosts receive one program over faulty lines; their copies are compared at seeded points and judged by what was delivered",
    "P21": "the report tool under I/O faults and beside tools rewriting its input, call by call; figures judged by a reference printer",
    "P19": "torn and corrupted transfers; source lines executed counted against a quadratic budget",
}
NA = {
    "P22": "pure vector arithmetic: no schedule, clock, fault, I/O or history it could depend on",
}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "dst", "props", p.lower() + ".py")):
        checks.append({
            "property": p,
            "quick_cmd": "./check --property %s --tier quick" % p,
            "thorough_cmd": "./check --property %s --tier thorough" % p,
            "technique": "deterministic simulation with fault injection (seeded search)",
            "level": "exploration",
            "level_note": NOTES[p],
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
m = {"version": 1, "setup_cmd": "./check --self-test", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all seams are CPython's own (builtins.open, os, tempfile, sys streams, settrace). Replay: ./check --replay FILE"}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
