#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).

seed.py make SPEC.py   - SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo, files={name: text})]
seed.py try ID [CHECK..] [--tests]  - demo on clean and patched copies, tests and checks on the patched copy
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """#!/bin/bash
# run in the repository
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/python PYTHONDONTWRITEBYTECODE=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore HDF5_USE_FILE_LOCKING=FALSE
PY=/opt/venv/bin/python
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export W
"""

def copy():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    return d, d + "/repo"

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d, r = copy()
        for f, old, new in s["edits"]:
            t = open(f"{r}/{f}").read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(f"{r}/{f}", "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
        o = f"{ROOT}/seeded/{s['id']}"
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(HEAD + s["demo"] + "\n")
        os.chmod(o + "/demo.sh", 0o755)
        for n, t in s.get("files", {}).items():
            open(f"{o}/{n}", "w").write(t)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        shutil.rmtree(d)
        print("made", s["id"])

def tests(r, w):
    env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader", OMPI_MCA_plm="isolated",
               OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", TMPDIR=w)
    open(w + "/res", "w").close()
    subprocess.run(["/opt/venv/bin/python", "/opt/vp/lib/run_mpi_tests.py", w, w + "/res", "1", "2", "3", "4", "8"], cwd=r + "/python", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ok = {l.split(" ", 1)[1] for l in open(w + "/res").read().splitlines() if l.startswith("PASS")}
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base["stable"]
    names = [n for n in names if "fortran::" not in n]
    return [n for n in names if n not in ok]

def try_(i, checks, dotests):
    o = f"{ROOT}/seeded/{i}"
    out = []
    d, r = copy()
    try:
        c = subprocess.run([o + "/demo.sh"], cwd=r, capture_output=True, text=True, timeout=300)
        out.append(f"demo clean rc={c.returncode}" + ("" if c.returncode == 0 else " BAD " + (c.stdout + c.stderr)[-600:]))
        a = subprocess.run(["git", "-C", r, "apply", o + "/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            return f"{i}: patch does not apply {a.stderr}"
        c = subprocess.run([o + "/demo.sh"], cwd=r, capture_output=True, text=True, timeout=300)
        out.append(f"demo patched rc={c.returncode}" + (" BAD" if c.returncode == 0 else "") + " [" + (c.stdout + c.stderr).strip().replace("\n", " | ")[-150:] + "]")
        if dotests:
            b = tests(r, d)
            out.append(f"tests failing: {b[:5]} {len(b)}")
        for k in checks:
            v = f"{d}/verif"
            if not os.path.exists(v):
                subprocess.check_call(["cp", "-a", ROOT, v])
            env = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick")
            c = subprocess.run(["./run", k], cwd=v, env=env, capture_output=True, text=True, timeout=900)
            l = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
            out.append(f"{k} rc={c.returncode} {'CAUGHT' if c.returncode == 1 and l else 'MISSED'} {(c.stdout+c.stderr).strip()[-300:] if not l else ''}")
    finally:
        shutil.rmtree(d)
    return f"{i}: " + "\n    ".join(out)

if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        from concurrent.futures import ThreadPoolExecutor
        t = "--tests" in sys.argv
        nw = 2
        ids = [x for x in sys.argv[2:] if os.path.isdir(f"{ROOT}/seeded/{x}")] or sorted(os.listdir(ROOT + "/seeded"))
        ch = [x for x in sys.argv[2:] if x.startswith("C") and x[1:].isdigit()]
        def go(i):
            p = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))["property"]
            return try_(i, ch or [p], t)
        with ThreadPoolExecutor(nw) as ex:
            for x in ex.map(go, ids):
                print(x, flush=True)
