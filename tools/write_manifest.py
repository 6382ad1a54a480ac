"""Writes MANIFEST.json from the checks present in checks/"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sim = "exhaustive enumeration of bounded inputs and rank divisions, executed on the real code under a simulated MPI that controls scheduling; a sample of the same executions replayed under mpirun"
TECH = {
 "C01": ("model_checking", sim), "C02": ("model_checking", sim), "C03": ("model_checking", sim), "C04": ("model_checking", sim),
 "C05": ("model_checking", sim + "; rank interleavings explored up to a preemption bound"), "C06": ("model_checking", sim),
 "C07": ("model_checking", "stateless exploration of rank schedules of the real routines under a controlled MPI scheduler, up to a preemption bound and in every buffering mode"),
 "C08": ("model_checking", sim), "C09": ("model_checking", sim), "C10": ("model_checking", sim),
 "C11": ("exploration", "exhaustive enumeration of bounded file sets and rank counts, executed with the real code under MPI against a reference model"),
 "C12": ("exploration", "exhaustive enumeration of bounded file sets, rank layouts and write histories, executed with the real code under MPI against a reference model"),
 "C13": ("exploration", "exhaustive enumeration of all pairs of small arrays against a reference model"),
 "C14": ("exploration", "exhaustive enumeration of all small range layouts against a reference model"),
 "C15": ("exploration", "exhaustive enumeration of every cell of the grids against an independent model of the curve"),
 "C16": ("model_checking", "explicit-state exploration of histories of declarations, reads, closes and file-cache evictions on the real code against a reference model"),
 "C17": ("fault_enumeration", "exhaustive enumeration of layouts, byte orders and every marker corruption and truncation point against a reference model"),
 "C18": ("fault_enumeration", "exhaustive enumeration of snapshot format variants and truncation points from an independent byte-level writer"),
 "C19": ("fault_enumeration", "exhaustive enumeration of catalogue layouts and truncation points from an independent byte-level writer"),
 "C20": ("exploration", "exhaustive enumeration of file splits and group layouts against a reference model"),
 "C21": ("exploration", "exhaustive enumeration of particle layouts and regions against a reference model"),
 "C22": ("exploration", "exhaustive enumeration of unit exponents and attributes against a reference model"),
 "C23": ("exploration", "exhaustive enumeration of all small forests against a reference model"),
 "C24": ("exploration", "exhaustive enumeration of small tree files and column types against a reference reader"),
 "C25": ("exploration", "exhaustive enumeration of request histories and format strings against a reference model"),
 "C26": ("exploration", "exhaustive enumeration of type, rank, kind and section combinations through a generated driver, against an independent reader"),
 "C27": ("model_checking", "explicit-state exploration of operation histories executed by the real wrapper, against a reference model of the file system"),
 "C28": ("exploration", "exhaustive enumeration of missing and damaged files in run directories, executed with the real programs against a reference model"),
 "C29": ("model_checking", "stateless exploration of rank schedules of the real program under a controlled MPI scheduler, with a crash at every scheduling point and database operation followed by resuming"),
 "C30": ("model_checking", "stateless exploration of rank schedules of functions wrapped by the real decorator under a controlled MPI scheduler, for every set of failing ranks; replayed under mpirun"),
}
exec(open(os.path.join(ROOT, "tools", "manifest_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{ROOT}/checks/{i.lower()}.py") and i not in NA:
        checks.append({"property": i, "quick_cmd": f"./run {i}", "thorough_cmd": f"./run {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": TECH[i][1], "level": TECH[i][0], "level_note": NOTES.get(i, "bounds and assumptions in DESIGN.md")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
