"""C25: file names of simulation outputs, partial formatting, reading of datasets from several files"""
import itertools
import os
import shutil
import subprocess
import numpy as np
from mc.framework import Check, use_repo, Violation, REPO
from mc.enum import compositions

use_repo()
CHK = None


def fail(x):
    raise Violation(x)


# ---------------------------------------------------------------- partial formatting
class Obj:
    def __init__(self, v):
        self.x = v
        self.lst = [v, -1]

    def __repr__(self):
        return f"Obj<{self.x}>"

    def __format__(self, spec):
        return f"obj({self.x}:{spec})"


# field texts; {n} is replaced by the field name, {m} by another one which is used for the width
FIELDS = ["{n}", "{n:d}", "{n:03d}", "{n:x>6}", "{n!r}", "{n!s:>5}", "{n!a:^9}", "{n:}", "{n:{m}}", "{n:0>{m}d}"]
OFIELDS = ["{n.x}", "{n.lst[0]:04d}", "{n.lst[1]!r}", "{n!r:*>12}", "{n:zz}", "{n}"]
LITERAL = ["", "file_", " ", "\n%d ", "é.", "[]", "!", ":"]
VALUES = {"a": 7, "b": 123456, "snap_nr": 0, "c": 42, "o": Obj(5), "p": Obj(-3)}


def partial_case(case):
    from virgo.util.partial_formatter import PartialFormatter
    fields, k = case
    text = LITERAL[k % len(LITERAL)]
    need = []
    nested = []
    for i, (name, f, other) in enumerate(fields):
        text += f.replace("{m}", "{" + other + "}").replace("{n", "{" + name) + LITERAL[(k + i + 1) % len(LITERAL)]
        need.append(name)
        if "{m}" in f:
            nested.append((name, other))
            need.append(other)
    names = sorted(set(need))
    full = text.format(**VALUES)
    keep = PartialFormatter(ignore_missing=True)
    strict = PartialFormatter()
    n = 0
    for given in itertools.product((False, True), repeat=len(names)):
        have = {x: VALUES[x] for x, g in zip(names, given) if g}
        lack = {x: VALUES[x] for x, g in zip(names, given) if not g}
        if any(a in have and b in lack for a, b in nested):
            continue        # the width of a value to be filled in is needed
        n += 1
        extra = dict(unused=3, other=None)
        ways = [(keep, have), (keep, dict(have, **{x: None for x in lack})), (strict, dict(have, **{x: None for x in lack})), (keep, dict(have, **extra)), (strict, dict(dict.fromkeys(lack), **have, **extra))]
        for j, (fmt, kw) in enumerate(ways):
            what = f"PartialFormatter(ignore_missing={fmt is keep}).format({text!r}, {kw})"
            try:
                first = fmt.format(text, **kw)
            except Exception as e:
                fail(f"{what} raises {type(e).__name__}: {e}")
            # the fields which are left are those not given
            try:
                second = first.format(**lack)
            except Exception as e:
                fail(f"{what} is {first!r}, which can not be completed with {lack}: {type(e).__name__}: {e}")
            if second != full:
                fail(f"{what} is {first!r}, which gives {second!r} with {lack}, should be {full!r}")
            if lack and first.format(**{x: VALUES["p" if isinstance(lack[x], Obj) else "c"] for x in lack}) != text.format(**dict(VALUES, **{x: VALUES["p" if isinstance(lack[x], Obj) else "c"] for x in lack})):
                fail(f"{what} is {first!r}")
            # one field at a time, later
            step = first
            for x in sorted(lack, reverse=bool(k % 2)):
                if any(a == x and b in lack for a, b in nested):
                    break
                step = keep.format(step, **{x: lack[x]})
            else:
                if step != full:
                    fail(f"{what}, completed one field at a time, is {step!r}, should be {full!r}")
        if lack:
            try:
                r = strict.format(text, **have)
            except KeyError:
                pass
            else:
                fail(f"PartialFormatter().format({text!r}, {have}) is {r!r}, should raise KeyError")
        elif strict.format(text, **have) != full:
            fail(f"PartialFormatter().format({text!r}, {have}) is {strict.format(text, **have)!r}, should be {full!r}")
    # positional
    t = text + "{0}-{1:>4}"
    r = keep.format(t, 8, "z")
    if r.format(**VALUES) != full + "8-   z":
        fail(f"PartialFormatter(ignore_missing=True).format({t!r}, 8, 'z') is {r!r}")
    return {"counts": {"subsets": n, "nontrivial": n}}


# ---------------------------------------------------------------- Eagle file names
DIRS = {"eagle_subfind_tab": "groups", "eagle_subfind_snip_tab": "groups_snip", "group_tab": "groups", "group_snip_tab": "groups_snip", "eagle_subfind_particles": "particledata",
        "eagle_subfind_snip_particles": "particledata_snip", "snapshot": "snapshot", "snipshot": "snipshot"}


def eagle_path(base, basename, isnap, z, ifile):
    return "%s/%s_%03d_%s/%s_%03d_%s.%d.hdf5" % (base, DIRS[basename], isnap, z, basename, isnap, z, ifile)


def touch(p):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w"):
        pass


ZS = ["z000p000", "z015p132", "z002p012", "z009p993", "z000p101"]
NFILE = 3
SEQ = [0]


def eagle_case(case):
    """A sequence of requests and of creations of outputs"""
    from virgo.sims.eagle import eagle_filename
    universe, seq, k = case
    SEQ[0] += 1
    root = os.path.join(CHK.scratch.path, f"e{os.getpid()}_{SEQ[0]}")
    bases = [os.path.join(root, x) for x in (("sim", "sim2"), ("a_000_z000p000", "b.0.hdf5"), ("x[1]", "y*"))[k % 3]]
    exists = {}
    for i, (b, name, isnap, there) in enumerate(universe):
        exists[i] = there
        if there:
            for f in range(NFILE):
                touch(eagle_path(bases[b], name, isnap, ZS[(i + k) % 5], f))
    # Similar names which are not output files
    touch(os.path.join(bases[0], "snapshot_001_z001", "snapshot_001_z001.0.hdf5"))
    touch(os.path.join(bases[0], "data", "snapshot_001_z000p000.0.hdf5"))
    try:
        for step, (op, i, f) in enumerate(seq):
            b, name, isnap, _ = universe[i]
            z = ZS[(i + k) % 5]
            if op == "create":
                for g in range(NFILE):
                    touch(eagle_path(bases[b], name, isnap, z, g))
                exists[i] = True
                continue
            what = f"request {step} of {[(o,) + tuple(universe[j][:3]) + (g,) for o, j, g in seq]} (base directory, file type, snapshot, file number)"
            try:
                got = eagle_filename(bases[b], name, isnap, f)
            except IOError:
                if exists[i] and f < NFILE:
                    fail(f"{what}: file not found")
                continue
            if not exists[i]:
                fail(f"{what}: there is no such output, result is {got}")
            if f < NFILE and os.path.normpath(got) != os.path.normpath(eagle_path(bases[b], name, isnap, z, f)):
                fail(f"{what}: is {got}, should be {eagle_path(bases[b], name, isnap, z, f)}")
            if f >= NFILE and got != eagle_path(bases[b], name, isnap, z, f):
                fail(f"{what}: is {got} for a file which does not exist")
    finally:
        shutil.rmtree(root)
    return None


def ambiguous_case(case):
    """Two outputs with the same number are refused, unknown types are refused"""
    from virgo.sims.eagle import eagle_filename
    name, isnap, k = case
    SEQ[0] += 1
    root = os.path.join(CHK.scratch.path, f"e{os.getpid()}_{SEQ[0]}")
    try:
        for z in ZS[k:k + 2]:
            touch(eagle_path(root, name, isnap, z, 0))
        try:
            got = eagle_filename(root, name, isnap, 0)
        except IOError:
            pass
        else:
            fail(f"{name} {isnap} exists with redshifts {ZS[k:k + 2]}, result is {got}")
        try:
            got = eagle_filename(root, name + "x", isnap, 0)
        except KeyError:
            pass
        else:
            fail(f"{name}x: result is {got}")
    finally:
        shutil.rmtree(root)
    return None


# ---------------------------------------------------------------- Millennium file names
PROGRAM = """
program names
  use filepathmod
  implicit none
  integer :: itype, isnap, ifile
  do itype = 0, 4
     do isnap = 0, 63
        do ifile = 0, 511
           write(*,'(a)') trim(filepath(itype, isnap, ifile))
        end do
     end do
  end do
end program
"""


def cosma_case(case):
    from virgo.formats.subfind_lgadget2 import cosma_file_path
    d = os.path.join(CHK.scratch.path, f"f{os.getpid()}")
    os.makedirs(d)
    shutil.copy(os.path.join(REPO, "examples/millennium/fortran/file_path.f90"), d)
    with open(os.path.join(d, "names.f90"), "w") as f:
        f.write(PROGRAM)
    subprocess.run(["gfortran", "-o", "names", "file_path.f90", "names.f90"], cwd=d, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = subprocess.run([os.path.join(d, "names")], stdout=subprocess.PIPE, text=True, check=True).stdout.split("\n")
    base = ["snap_millennium", "group_tab", "sub_tab", "sub_ids", "group_ids"]
    n = 0
    for itype in range(5):
        for isnap in range(64):
            for ifile in range(512):
                want = f"/milli{(ifile + 3 * (63 - isnap)) % 14:02d}/d{isnap:02d}/{['snapshot', 'group_tab', 'sub_tab', 'sub_ids', 'group_ids'][itype]}/{base[itype]}_{isnap:03d}.{ifile}"
                got = cosma_file_path(itype, isnap, ifile)
                if got != want:
                    fail(f"location of file {ifile} of snapshot {isnap}, type {itype}: {got}, should be {want}")
                if out[n] != "/data" + want:
                    fail(f"Fortran example: location of file {ifile} of snapshot {isnap}, type {itype}: {out[n]}, should be /data{want}")
                n += 1
    return {"counts": {"names": n, "nontrivial": n}}


# ---------------------------------------------------------------- serial concatenation
DT = ["f4", "i8", "S3", "u1"]


def multi_case(case):
    import h5py
    from virgo.util.read_binary import BinaryFile
    from virgo.util.read_multi import read_multi
    kind, sizes, present, idx, axis, k = case
    root = os.path.join(CHK.scratch.path, f"m{os.getpid()}")
    os.makedirs(root, exist_ok=True)
    names = ["a", "g/b", "/g/h/c"]
    files = []
    calls = []
    fmt = os.path.join(root, ("f_%(i)d.hdf5", "x%(i)03d.%(i)d", "f.%(i)s")[k % 3])
    for i, s in enumerate(sizes):
        d = {}
        for j, name in enumerate(names):
            if not present[j][i]:
                continue
            shape = [(s,), (s, 2), (s, 3, 2)][j] if axis == 0 else [(2, s), (3, s), (1, s, 2)][j]
            if s == 0 and kind == "binary":
                continue
            m = int(np.prod(shape))
            d[name] = (np.arange(m) + 10 * i + j).astype(DT[(k + j) % 4]).reshape(shape)
        files.append(d)
        fn = fmt % {"i": i}
        if kind == "hdf5":
            with h5py.File(fn, "w") as f:
                for a, b in d.items():
                    f[a] = b
                f["extra"] = np.arange(3)
        else:
            with open(fn, "wb") as f:
                f.write(b"".join(b.tobytes() for b in d.values()))

    class Reader(BinaryFile):
        def __init__(self, fname, first, second=None):
            calls.append((first, second))
            BinaryFile.__init__(self, fname)
            i = [fmt % {"i": q} for q in range(len(sizes))].index(fname)
            for a, b in files[i].items():
                self.add_dataset(a.lstrip("/"), b.dtype, b.shape)

    want = [x.lstrip("/") if kind == "binary" else x for x in names]
    want = [x for j, x in enumerate(want) if any(names[j] in files[i] for i in idx)]
    if k % 2:
        want = want[::-1]
    try:
        for seq in (idx, list(idx), np.array(idx, dtype="i4")):
            if kind == "hdf5":
                got = read_multi(fmt, seq, want, None, axis) if k % 2 else read_multi(format_str=fmt, idx=seq, datasets=want, axis=axis)
            else:
                got = read_multi(fmt, seq, want, Reader, axis, "one", second=k)
            what = f"reading {want} from {kind} files {idx} along axis {axis}; contents {[{a: b.shape for a, b in d.items()} for d in files]}"
            if list(got) != want:
                fail(f"{what}: result contains {list(got)}")
            for x in want:
                parts = [files[i][n] for i in idx for n in files[i] if n.lstrip("/") == x.lstrip("/")]
                e = np.concatenate(parts, axis=axis)
                if got[x].shape != e.shape or got[x].dtype != e.dtype or not np.array_equal(got[x], e):
                    fail(f"{what}: {x} is {got[x].tolist()} ({got[x].dtype}), should be {e.tolist()} ({e.dtype})")
            if kind == "binary" and calls[-len(idx):] != [("one", k)] * len(idx):
                fail(f"{what}: extra parameters passed were {calls[-len(idx):]}")
    finally:
        shutil.rmtree(root)
    return None


def main():
    global CHK
    chk = CHK = Check("C25", "exploration")
    if chk.replay_requested({"partial": partial_case, "eagle": eagle_case, "ambiguous": ambiguous_case, "cosma": cosma_case, "multi": multi_case}):
        return
    t = chk.thorough
    cs = []
    one = [("a", f, "c") for f in FIELDS] + [("o", f, "c") for f in OFIELDS]
    two = [("b", f, "c") for f in FIELDS] + [("p", f, "c") for f in OFIELDS] + [("a", "{n:>8}", "c"), ("snap_nr", "{n:03d}", "c")]
    three = [("snap_nr", f, "a") for f in FIELDS[:8]] + [("c", "{n}", "c"), ("o", "{n.x:d}", "c")]
    for f in one:
        for k in range(len(LITERAL)):
            cs.append(((f,), k))
    for f, g in itertools.product(one, two):
        for k in range(8 if t else 2):
            cs.append(((f, g), len(cs)))
    for f, g, h in itertools.product(one, two, three):
        cs.append(((f, g, h), len(cs)))
        if t:
            cs.append(((h, f, g, f), len(cs)))
    chk.run_cases("partial", cs, partial_case)

    types = list(DIRS)
    cs = []
    for u0 in range(8 if t else 4):
        a, b, c = types[u0], types[(u0 + 1) % 8] if u0 % 2 else types[(u0 + 4) % 8], types[(u0 + 2) % 8]
        universe = ((0, a, 1, True), (0, a, 11, True), (1, a, 1, True), (0, b, 1, u0 % 3 != 0), (0, c, 1, False), (1, a, 28 + 100 * u0, False))
        ops = [("get", 0, 0), ("get", 0, 2), ("get", 1, 1), ("get", 2, 0), ("get", 3, 1), ("get", 4, 0), ("get", 5, 2), ("create", 4, 0), ("create", 5, 0), ("get", 0, 7)]
        for d in range(1, (6 if u0 < 2 else 5) if t else (5 if u0 < 1 else 4)):
            for seq in itertools.product(ops, repeat=d):
                if seq[-1][0] == "get" and any(x[0] == "get" for x in seq):
                    cs.append((universe, seq, len(cs)))
    chk.run_cases("eagle", cs, eagle_case, nontrivial=lambda c: len(c[1]) > 1)
    # every type with each other, both orders
    cs = []
    for a, b in itertools.permutations(types, 2):
        for s1, s2 in ((3, 3), (0, 10), (10, 100), (1, 1000)):
            u = ((0, a, s1, True), (0, b, s2, True), (1, b, s1, True), (1, a, s2, True))
            for f in (0, 1):
                cs.append((u, (("get", 0, f), ("get", 1, f), ("get", 2, 1 - f), ("get", 3, f), ("get", 0, 1 - f), ("get", 1, 2), ("get", 2, 2)), len(cs)))
    chk.run_cases("eagle types", cs, eagle_case)
    chk.run_cases("ambiguous", [(n, s, k) for n in types for s in (0, 7, 123) for k in range(4)], ambiguous_case)
    chk.run_cases("cosma", [0], cosma_case)

    cs = []
    for nf in range(1, 4 if not t else 5):
        for sizes in itertools.product((0, 1, 2) if nf < 4 else (0, 2), repeat=nf):
            pres = list(itertools.product((True, False), repeat=nf))
            for p1 in pres:
                present = ((True,) * nf, p1, p1[::-1])
                idxs = [tuple(range(nf)), tuple(reversed(range(nf))), (nf - 1,), (0, nf - 1, 0)] + ([tuple(range(0, nf, 2))] if nf > 2 else [])
                for idx in idxs:
                    for kind in ("hdf5", "binary"):
                        for axis in (0, 1):
                            if kind == "binary" and not any(sizes[i] for i in idx):
                                continue
                            cs.append((kind, sizes, present, idx, axis, len(cs)))
    chk.run_cases("multi", cs, multi_case)
    chk.assumptions = ["templates without escaped braces, values without braces; a field which is filled in has its nested width given too", "Eagle outputs are not renamed after the first request; requests for missing files of an existing output may give the name",
                       "datasets to be read exist in at least one of the files"]
    chk.finish(rule="every template of one to three fields (thorough four) of 16 kinds (format specifications, conversions, attributes, elements, nested widths), every subset of fields given, left out or None, completed at once or one at a time; every sequence of up to 3 or 4 (thorough 4 or 5) requests and creations over 6 outputs, every pair of file types; "
                    "all file numbers, snapshots and types of the Millennium, compared to the compiled Fortran routine; every number of files up to 3 with 0-2 rows, datasets missing in every subset, 5 file orders, both axes, HDF5 and binary; non-trivial: sequences of more than one request",
               extra={"states": chk.cov.get("subsets", 0)})


if __name__ == "__main__":
    main()
