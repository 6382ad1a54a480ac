"""C28: file presence checks of Eagle and P-Gadget3 runs, for every pattern of missing files"""
import contextlib
import io
import itertools
import os
import re
import shutil
import struct
import sys
import numpy as np
from mc.framework import Check, use_repo, Violation, REPO

use_repo()
CHK = None
CODE = {}
LINE = re.compile(r"^\s*(\S+) (\d+): (OK|MISSING)\s+- (no|\d+ of \d+) (\S+) files present!?$")
SUM = re.compile(r"^\s*(\S+) - (\d+) of (\d+) directories not complete$")


def fail(x):
    raise Violation(x)


def run(script, args):
    if script not in CODE:
        path = os.path.join(REPO, "consistency_check", script)
        with open(path) as f:
            CODE[script] = compile(f.read(), path, "exec")
    out = io.StringIO()
    argv = sys.argv
    sys.argv = [script] + [str(a) for a in args]
    try:
        with contextlib.redirect_stdout(out):
            exec(CODE[script], {"__name__": "__main__", "__file__": script})
    except SystemExit as e:
        if e.code not in (None, 0):
            return None, f"ended with exit status {e.code}"
    except Exception as e:
        return None, f"{type(e).__name__}: {e}"
    finally:
        sys.argv = argv
    return out.getvalue(), None


def parse(text):
    res, tot = [], {}
    summary = False
    for line in text.splitlines():
        if "Summary" in line:
            summary = True
        m = SUM.match(line)
        if m and summary:
            tot[m.group(1)] = (int(m.group(2)), int(m.group(3)))
            continue
        m = LINE.match(line)
        if m and not summary:
            n = m.group(4)
            res.append((m.group(1), int(m.group(2)), m.group(5), m.group(3), None if n == "no" else tuple(int(x) for x in n.split(" of "))))
        elif line.strip() and "Summary" not in line:
            fail(f"unexpected line of output: {line}")
    return res, tot


def hdf5(path, attr, n):
    import h5py
    with h5py.File(path, "w") as f:
        h = f.create_group("Header")
        h.attrs[attr] = np.int32(n)
        h.attrs["NumPart_ThisFile"] = np.zeros(6, dtype=np.int32)


TEMPLATES = {}


def put(path, kind, n):
    """A file of the given kind which says that there are n of them"""
    key = (kind, n)
    if key not in TEMPLATES:
        t = os.path.join(CHK.scratch.path, f"t{os.getpid()}.{abs(hash(key))}")
        if kind in ("NumFilesPerSnapshot", "NTask"):
            hdf5(t, kind, n)
            with open(t, "rb") as f:
                TEMPLATES[key] = f.read()
            os.unlink(t)
        else:
            e = kind[0]
            if kind[1:] == "snap":
                h = struct.pack(e + "6i8d2i6i2i4d", *[0] * 6, *[0.0] * 8, 0, 0, *[0] * 6, 0, n, 0., 0., 0., 0.).ljust(256, b"\0")
                TEMPLATES[key] = struct.pack(e + "i", 256) + h + struct.pack(e + "i", 256)
            else:
                TEMPLATES[key] = struct.pack(e + "iiiqi", 0, 7, 0, 12, n) + struct.pack(e + "i", 0) * (0 if kind[1:] == "group_tab" else 1) + struct.pack(e + "i", 0) * (kind[1:] == "subhalo_tab")
    with open(path, "wb") as f:
        f.write(TEMPLATES[key])


def near(name, x, ext, n):
    """Names like that of file x, of which none is its name or that of another of n files"""
    res = [f"{name}.{x}{e}" for e in (".hdf5.bak", ".hdf5~", ".hdf5.md5", ".hdf5.1", ".h5", ".HDF5", ".", ".hdf", ".bak", ".1") + ((".hdf5",) if not ext else ("",))]
    res += [f"{name}.0{x}{ext}", f"{name}.{x}.{x}{ext}", f"{name}{x}{ext}", f"{name}_{x}{ext}", f"{name}..{x}{ext}", f"{name}.-{x}{ext}", f"{name}.x{ext}", f"{name}{ext}", f".{name}.{x}{ext}", f"x{name}.{x}{ext}", f"{name.upper()}.{x}{ext}",
            f"{name}.{x + 10 * (n // 10 + 1)}{ext}", f"{name}.{x}0000{ext}"]
    ok = {f"{name}.{i}{ext}" for i in range(n)}
    return [r for r in res if r not in ok and r != f"{name}.{x}{ext}"]


def newdir(odd):
    base = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    base = os.path.join(base, ("run", "L0100N1504 [REF]", "a*b?")[odd])
    os.mkdir(base)
    return base


def judge(what, text, err, want):
    """want: list of (directory, number, name of files, number expected or None, number present, name in the summary)"""
    if err:
        fail(f"{what}: {err}")
    res, tot = parse(text)
    exp = []
    missing, expected = {}, {}
    for d, i, f, n, k, label in want:
        exp.append((d, i, f, "OK" if n is not None and n == k else "MISSING", None if n is None else (k, n)))
        expected[label] = expected.get(label, 0) + 1
        missing[label] = missing.get(label, 0) + (exp[-1][3] != "OK")
    if sorted(res, key=str) != sorted(exp, key=str):
        bad = [r for r in res if r not in exp], [e for e in exp if e not in res]
        fail(f"{what}: reports {bad[0]}, should report {bad[1]}")
    t = {k: (n, expected[k]) for k, n in missing.items() if n}
    if t != tot:
        fail(f"{what}: summary is {tot}, should be {t}")


EAGLE = [("snapshot", "snap", "NumFilesPerSnapshot", "snap"), ("groups", "group_tab", "NTask", "group_tab"), ("particledata", "eagle_subfind_particles", "NumFilesPerSnapshot", "eagle_subfind_particles"), ("groups", "eagle_subfind_tab", "NTask", "eagle_subfind_tab"),
         ("snipshot", "snip", "NumFilesPerSnapshot", "snip"), ("groups_snip", "group_snip_tab", "NTask", "group_snip_tab"), ("particledata_snip", "eagle_subfind_snip_particles", "NumFilesPerSnapshot", "eagle_subfind_snip_particles"),
         ("groups_snip", "eagle_subfind_snip_tab", "NTask", "eagle_subfind_snip_tab")]
# of one type of output: (files according to the header, indexes of those which exist, other things)
Z = ("z020p000", "z000p101", "z009p993")


def eagle_case(case):
    """case: number of snapshots and snipshots, odd directory name, {(output, type): (n, present, extra)}"""
    ns, np_, odd, outputs, k = case
    base = newdir(odd)
    want = []
    spec = dict(outputs)
    twice = {}
    for i in range(max(ns, np_) + 1):
        for j, (d, f, attr, label) in enumerate(EAGLE):
            n, present, extra = spec.get((i, j), (2, (0, 1), 0))
            z = Z[(i + k) % 3]
            dirname = f"{base}/{d}_{i:03d}_{z}"
            if extra != 5:
                os.makedirs(dirname, exist_ok=True)
            if extra == 6:
                # two directories for one output
                os.makedirs(f"{base}/{d}_{i:03d}_z123p456", exist_ok=True)
                twice[(i, d)] = True
            if extra != 5 and os.path.isdir(dirname):
                for x in present:
                    put(f"{dirname}/{f}_{i:03d}_{z}.{x}.hdf5", attr, n)
                if extra == 1:
                    put(f"{dirname}/{f}_{i:03d}_{z}.{n}.hdf5", attr, n)
                    put(f"{dirname}/{f}_{i:03d}_{z}.0.hdf5.bak", attr, n)
                    put(f"{dirname}/{f}_{i + 1:03d}_{z}.1.hdf5", attr, n)
                if extra == 7:
                    for x in range(n):
                        if x not in present:
                            for y in near(f"{f}_{i:03d}_{z}", x, ".hdf5", n):
                                put(f"{dirname}/{y}", attr, n)
                if extra == 2:
                    put(f"{dirname}/x{f}_{i:03d}_{z}.1.hdf5", attr, n)
                    put(f"{base}/{f}_{i:03d}_{z}.1.hdf5", attr, n)
                if extra == 3 and 0 in present:
                    with open(f"{dirname}/{f}_{i:03d}_{z}.0.hdf5", "wb") as h:
                        h.write(b"not hdf5" * 10)
                if extra == 4 and 0 in present:
                    for x in present:
                        if x:
                            os.truncate(f"{dirname}/{f}_{i:03d}_{z}.{x}.hdf5", 0)
    for i in range(max(ns, np_)):
        for j, (d, f, attr, label) in enumerate(EAGLE):
            if i >= (ns if j < 4 else np_):
                continue
            n, present, extra = spec.get((i, j), (2, (0, 1), 0))
            there = os.path.isdir(f"{base}/{d}_{i:03d}_{Z[(i + k) % 3]}")
            if extra in (3, 5) or 0 not in present or not there or (i, d) in twice:
                want.append((d, i, f, None, 0, label))
            else:
                want.append((d, i, f, n, len([x for x in present if x < n]), label))
    judge(f"Eagle run, {dict(outputs)}, directory {os.path.basename(base)!r}", *run("eagle/check_eagle_file_presence.py", [base, ns, np_]), want)
    shutil.rmtree(os.path.dirname(base))
    return {"counts": {"outputs": len(want), "nontrivial": 1}}


PG3 = [("snapdir", None, "snap", "snapshot"), ("groups", "group_tab", "group_tab", "group_tab"), ("groups", "group_ids", "group_ids", "group_ids"), ("groups", "subhalo_tab", "subhalo_tab", "subhalo_tab"), ("groups", "subhalo_ids", "group_ids", "subhalo_ids")]


def pg3_case(case):
    snapbase, last, first, step, odd, outputs, k = case
    base = newdir(odd)
    spec = dict(outputs)
    want = []
    for i in range(last + 2):
        for j, (d, f, kind, label) in enumerate(PG3):
            f = f or snapbase
            n, present, extra = spec.get((i, j), (2, (0, 1), 0))
            dirname = f"{base}/{d}_{i:03d}"
            if extra != 5:
                os.makedirs(dirname, exist_ok=True)
            e = "<>"[(i + j + k) % 2]
            ext = ".hdf5" if f == "500_dm" else ""
            kd = "NumFilesPerSnapshot" if j == 0 and (ext or k % 3 == 0) else e + kind
            if extra != 5 and os.path.isdir(dirname):
                for x in present:
                    put(f"{dirname}/{f}_{i:03d}.{x}{ext}", kd, n)
                if extra == 1:
                    put(f"{dirname}/{f}_{i:03d}.{n}{ext}", kd, n)
                    put(f"{dirname}/{f}_{i:03d}.1{ext}.bak", kd, n)
                    put(f"{dirname}/{f}_{i + 1:03d}.1{ext}", kd, n)
                if extra == 7:
                    for x in range(n):
                        if x not in present:
                            for y in near(f"{f}_{i:03d}", x, ext, n):
                                put(f"{dirname}/{y}", kd, n)
                if extra == 3 and 0 in present:
                    open(f"{dirname}/{f}_{i:03d}.0{ext}", "wb").close()
                if extra == 4:
                    for x in present:
                        if x:
                            os.truncate(f"{dirname}/{f}_{i:03d}.{x}{ext}", 0)
    for i in range(first, last + 1, step):
        for j, (d, f, kind, label) in enumerate(PG3):
            n, present, extra = spec.get((i, j), (2, (0, 1), 0))
            if extra in (3, 5) or 0 not in present or not os.path.isdir(f"{base}/{d}_{i:03d}"):
                want.append((d, i, f or snapbase, None, 0, label))
            else:
                want.append((d, i, f or snapbase, n, len([x for x in present if x < n]), label))
    args = [base, snapbase, last] + ([first, step] if (first, step) != (0, 1) or k % 2 else [])
    judge(f"P-Gadget3 run {args[1:]}, {dict(outputs)}", *run("p-gadget3/check_pgadget3_file_presence.py", args), want)
    shutil.rmtree(os.path.dirname(base))
    return {"counts": {"outputs": len(want), "nontrivial": 1}}


def subsets(n):
    return [tuple(i for i in range(n) if m >> i & 1) for m in range(2 ** n)]


def main():
    global CHK
    chk = CHK = Check("C28", "exploration")
    if chk.replay_requested({"eagle": eagle_case, "pgadget3": pg3_case}):
        return
    t = chk.thorough
    cs = []
    states = [(n, p, x) for n in (1, 2, 3) + ((4, 5) if t else ()) for p in subsets(n) for x in range(8)]
    states += [(n, tuple(i for i in range(n) if i != x), 7) for n in (10, 11, 12, 21) for x in range(n)]
    for j in range(8):
        for s in states:
            cs.append((1, 1, len(cs) % 3, (((0, j), s),), len(cs)))
    # several outputs, several problems
    few = [(2, (0, 1), 0), (2, (0,), 0), (2, (1,), 0), (3, (0, 2), 1), (1, (), 5), (12, tuple(range(12)), 0), (12, tuple(range(11)), 0)]
    for a, b in itertools.product(range(16), repeat=2):
        if a < b:
            for x, y in itertools.product(few, repeat=2) if t else [(few[(a + b) % 7], few[(a * 3 + b) % 7]), (few[(a + 2 * b) % 7], few[1 + (a * b) % 6])]:
                cs.append(((2, 1, 2)[len(cs) % 3], (2, 2, 0)[len(cs) % 3], len(cs) % 3, (((a // 8, a % 8), x), ((b // 8, b % 8), y)), len(cs)))
    chk.run_cases("eagle", cs, eagle_case)
    cs = []
    for j in range(5):
        for s in states:
            if s[2] not in (2, 6):
                for sb in ("snap", "500_dm"):
                    if j == 0 or sb == "snap":
                        cs.append((sb, 0, 0, 1, len(cs) % 3, (((0, j), s),), len(cs)))
    for last, first, step in [(0, 0, 1), (2, 0, 1), (3, 0, 2), (3, 1, 2), (2, 1, 1), (3, 3, 5), (3, 2, 1)]:
        for i in range(last + 1):
            for j in range(5):
                for x in few:
                    cs.append((("snap", "500_dm", "snapshot")[len(cs) % 3], last, first, step, len(cs) % 3, (((i, j), x), (((i + 1) % 3, (j + 2) % 5), few[len(cs) % 7])), len(cs)))
    chk.run_cases("pgadget3", cs, pg3_case)
    chk.finish(rule="every output type x every number of files up to 3 (thorough 5) x every subset of them present x other files, among them names like those of the missing ones, unreadable first file, truncated files, missing and duplicated directories; pairs of problems over two snapshots and snipshots; first and last number and step; basedir with special characters; every case is non-trivial",
               extra={})


if __name__ == "__main__":
    main()
