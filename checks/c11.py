"""C11: reading sets of HDF5 files on any number of ranks"""
import itertools
import os
import numpy as np
from mc.framework import Check, use_repo
from mc import mpicheck as M, enum as E

use_repo()
DT = ["<i8", "<f4", ">i4", "<u8", "|u1", ">f8", "<i2", "|S5", ">u2", "<f8"]
TRAIL = [(), (3,), (2, 2), (), (1,), (0,), (3,)]
NAMING = ["attr%", "dataset{}", "idx%", "list", "idx{}", "attr0", "tuple", "array"]
WORK = os.environ.get("TMPDIR", "/tmp")

# case: ("R", ranks, states, dtype, trailing shape, group, naming, options, buffer, k)
#   states: per file "g" (group missing), "d" (dataset missing) or the number of rows of A
#   options: bits - 1 file numbers, 2 attributes, 4 single dataset, 8 unpack
# case: ("X", ranks, dtypes per file, sizes) - files which disagree about the type


def content(case):
    """Per file: None (no group) or {name: array}; names A, B (other type and shape), C (never there)"""
    _, nr, states, dt, trail, group, naming, opt, buf, k = case
    out = []
    a = b = 0
    for i, s in enumerate(states):
        if s == "g":
            out.append(None)
            continue
        d = {}
        m = int(np.prod(trail, dtype=int))
        if s != "d":
            v = np.arange(a, a + s * m) * 3 + 1
            a += s * m
            d["A"] = (v % 97 if np.dtype(dt).itemsize < 2 else v % 30000).astype(dt).reshape((s,) + trail)
        if (i + k) % 3:
            n = (i * 2 + k) % 5 + (23 if (k + i) % 7 == 0 else 0)
            d["B"] = np.arange(b, b + 2 * n).astype("<f8" if k % 2 else ">i8").reshape((n, 2))
            b += 2 * n
        out.append(d)
    return out


def numbers(case):
    """File numbers as the caller gave them"""
    naming, n, k = case[6], len(case[2]), case[9]
    if naming.startswith("idx"):
        return [(7, 3, 12, 5, 0, 9, 1)[(i + k) % 7] for i in range(n)]
    return list(range(n))


def name_of(case, d, i):
    n = numbers(case)[i]
    naming = case[6]
    return os.path.join(d, f"snap_{n:03d}.hdf5" if naming == "attr0" else (f"snap.{n}.hdf5" if "%" in naming or "{" in naming else f"{'zyxwvutsr'[i]}_snap.hdf5"))


def fmt_of(case, d):
    naming = case[6]
    names = [name_of(case, d, i) for i in range(len(case[2]))]
    if naming == "list":
        return names
    if naming in ("tuple", "array"):
        return tuple(names)
    if naming == "attr0":
        return os.path.join(d, "snap_%(file_nr)03d.hdf5")
    return os.path.join(d, "snap.%(file_nr)d.hdf5" if "%" in naming else "snap.{file_nr}.hdf5")


def write_files(case, d):
    import h5py
    os.makedirs(d, exist_ok=True)
    group = case[5]
    for i, c in enumerate(content(case)):
        with h5py.File(name_of(case, d, i), "w") as f:
            f.create_group("Header").attrs["NumFilesPerSnapshot"] = np.int32(len(case[2]))
            f.create_group("Other")["A"] = np.arange(3)
            f["nfiles"] = len(case[2]) if case[9] % 2 else np.asarray([len(case[2])])
            if c is None:
                continue
            g = f.require_group(group) if group else f
            for nm, x in c.items():
                ds = g.create_dataset(nm, data=x)
                ds.attrs["file"] = i
                ds.attrs["same"] = np.asarray([1.5, 2.5])
                ds.attrs["text"] = f"dataset {nm}"


def make_multifile(case, d, comm, ph):
    naming = case[6]
    kw = {}
    if naming.startswith("attr"):
        kw["file_nr_attr"] = ("Header", "NumFilesPerSnapshot")
    elif naming.startswith("dataset"):
        kw["file_nr_dataset"] = "nfiles"
    elif naming.startswith("idx"):
        kw["file_idx"] = numbers(case) if case[9] % 2 else np.asarray(numbers(case))
    from mpi4py import MPI
    if case[9] % 3 or comm != MPI.COMM_WORLD:
        kw["comm"] = comm
    return ph.MultiFile(fmt_of(case, d), **kw)


def pack(x):
    if x is None:
        return None
    a = getattr(x, "attrs", "none")
    if isinstance(a, dict):
        a = {k: (v.tolist() if isinstance(v, np.ndarray) else (v.item() if isinstance(v, np.generic) else v)) for k, v in a.items()}
    return np.asarray(x), a


def prog(rank, comm, mods, case):
    ph = mods["virgo.mpi.parallel_hdf5"]
    d = comm.bcast(os.path.join(WORK, f"c11-{os.getpid()}"))
    if case[0] == "X":
        return prog_x(rank, comm, ph, case, d)
    if rank == 0:
        write_files(case, d)
    comm.Barrier()
    _, nr, states, dt, trail, group, naming, opt, buf, k = case
    default = ph.BUFFER_SIZE
    if buf:
        ph.BUFFER_SIZE = buf
    try:
        mf = make_multifile(case, d, comm, ph)
        single = bool(opt & 4)
        want = "A" if single else ("A", "B", "C") if k % 2 else ["B", "A", "C"]
        kw = {}
        if opt & 1:
            kw["return_file_nr"] = ("A",) if single or k % 2 else ("A", "B")
        if opt & 2:
            kw["read_attributes"] = True
        if opt & 8:
            kw["unpack"] = True
        r = mf.read(want, group=group, **kw)
        fn = None
        if opt & 1:
            r, fn = r
        per = dict(mf.get_elements_per_file("A", group=group))
        # the same through the other forms of the result
        if single:
            r = {"A": r}
            fn = None if fn is None else {"A": fn}
        elif opt & 8:
            r = dict(zip(want, r))
            if fn is not None:
                fn = dict(zip(kw["return_file_nr"], [f for f in fn]))
    finally:
        ph.BUFFER_SIZE = default
    comm.Barrier()
    if rank == 0:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
    return {n: pack(x) for n, x in r.items()}, (None if fn is None else {n: pack(x) for n, x in fn.items()}), {int(a): int(b) for a, b in per.items()}


def prog_x(rank, comm, ph, case, d):
    import h5py
    _, nr, dts, sizes, where = case
    if rank == 0:
        os.makedirs(d, exist_ok=True)
        for i, (t, s) in enumerate(zip(dts, sizes)):
            with h5py.File(os.path.join(d, f"x.{i}"), "w") as f:
                if s is not None:
                    f["G/A"] = np.arange(s).astype(t)
                f["G/B"] = np.arange(2)
    comm.Barrier()
    res = "no error"
    try:
        mf = ph.MultiFile(os.path.join(d, "x.%(file_nr)d"), file_idx=np.arange(len(dts)), comm=comm)
        mf.read(("B", "A") if where else ("A", "B"), group="G")
    except Exception as e:
        res = type(e).__name__
    comm.Barrier()
    if rank == 0:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
    return res


def oracle(case, vals):
    if case[0] == "X":
        _, nr, dts, sizes, where = case
        used = {np.dtype(t) for t, s in zip(dts, sizes) if s is not None}
        for r, v in enumerate(vals):
            if len(used) > 1 and v == "no error":
                return f"rank {r}: no error although the files store types {dts}"
            if len(used) <= 1 and v != "no error":
                return f"rank {r}: {v} although the files agree"
        return
    _, nr, states, dt, trail, group, naming, opt, buf, k = case
    files = content(case)
    nums = numbers(case)
    names = ("A",) if opt & 4 else ("A", "B", "C")
    for name in names:
        have = [(i, f[name]) for i, f in enumerate(files) if f is not None and name in f]
        got = [v[0][name] for v in vals]
        if not have:
            if any(g is not None for g in got):
                return f"{name}: data returned although no file has it"
            continue
        if any(g is None for g in got):
            return f"{name}: None on ranks {[r for r, g in enumerate(got) if g is None]}"
        full = np.concatenate([x for _, x in have])
        native = full.dtype.newbyteorder("=")
        arrs = [g[0] for g in got]
        for r, a in enumerate(arrs):
            if a.dtype != native or not a.dtype.isnative:
                return f"{name}: rank {r} has type {a.dtype.str}, the files {full.dtype.str}"
            if a.shape[1:] != full.shape[1:]:
                return f"{name}: rank {r} has shape {a.shape}, the files hold {full.shape}"
        cat = np.concatenate(arrs)
        if cat.shape != full.shape or not np.array_equal(cat, full):
            return f"{name}: concatenation {cat.tolist()}, expected {full.tolist()}"
        src = np.concatenate([np.full(len(x), i) for i, x in have])
        ends = np.cumsum([len(a) for a in arrs])
        if opt & 1 and name in vals[0][1]:
            fn = [v[1][name] for v in vals]
            if any(f is None for f in fn):
                return f"{name}: file numbers missing on a rank"
            if [len(f[0]) for f in fn] != [len(a) for a in arrs]:
                return f"{name}: {[len(f[0]) for f in fn]} file numbers for {[len(a) for a in arrs]} elements"
            f = np.concatenate([x[0] for x in fn])
            if f.tolist() != [nums[i] for i in src]:
                return f"{name}: file numbers {f.tolist()}, expected {[nums[i] for i in src]}"
        if opt & 2:
            for r in range(nr):
                at = got[r][1]
                mine = set(src[ends[r] - len(arrs[r]):ends[r]].tolist())
                ok = mine or {i for i, _ in have}
                ok = ok | {i for i, x in have if len(x) == 0}
                if not isinstance(at, dict) or set(at) != {"file", "same", "text"} or at["file"] not in ok or at["same"] != [1.5, 2.5] or at["text"] != f"dataset {name}":
                    return f"{name}: rank {r} has attributes {at}, its elements come from files {sorted(ok)}"
    per = {}
    for v in vals:
        for f, n in v[2].items():
            per[f] = per.get(f, 0) + n
    want = {n: (len(f["A"]) if f is not None and "A" in f else 0) for n, f in zip(nums, files)}
    if per != want:
        return f"elements per file {per}, expected {want}"


SPEC = M.part_of_program(M.Spec("read", ("virgo.mpi.parallel_hdf5",), prog, lambda case: (case[1], [(case,)] * case[1]), oracle))
SPECS = [SPEC]


def cases(t):
    k = 0
    full = ("g", "d", 0, 1, 3, 47)
    for nr in (1, 2, 3, 4) + ((5, 6, 8) if t else ()):
        for nf, st in ((1, full), (2, full), (3, ("g", "d", 0, 2, 33)), (4, ("d", 0, 2) + ((41,) if t else ())), (5, ("g", 0, 3)) if t else (5, (0, 3))):
            if nr > 4 and nf in (3,):
                st = ("d", 0, 33)
            for states in itertools.product(st, repeat=nf):
                trail = TRAIL[(k // 3) % len(TRAIL)]
                dt = DT[k % len(DT)]
                row = np.dtype(dt).itemsize * int(np.prod(trail, dtype=int))
                buf = (None, row, 2 * row + 1, 5 * row, max(1, row - 1))[k % 5]
                if buf is not None:
                    buf = max(buf, 4)
                yield ("R", nr, states, dt, trail, (None, "G", "G/Sub")[k % 3] if "g" not in states else ("G", "G/Sub")[k % 2], NAMING[k % len(NAMING)],
                       (1, 3, 2, 0, 5, 6, 7, 10)[(k // 2) % 8], buf, k)
                k += 1
    # ranks at and around the switch between the two ways of reading a shared file
    for nr in (2, 3, 4) + ((7, 8) if t else (8,)):
        for n in (10 * nr - 1, 10 * nr, 10 * nr + 1, 25 * nr + nr // 2):
            for buf in (None, 24, 48, 100):
                yield ("R", nr, (n,), DT[k % len(DT)], TRAIL[k % 2], "G", NAMING[k % len(NAMING)], 3, buf, k)
                if nr > 2:
                    yield ("R", nr, (n // 2 + 1, n), DT[k % len(DT)], TRAIL[k % 2], "G", NAMING[k % len(NAMING)], 1, buf, k)
                k += 1


def x_cases(t):
    for nr in (1, 2, 3, 4):
        for nf in (1, 2, 3, 5):
            for i, dts in enumerate(itertools.product(("<i4", "<i8") if nf > 2 else ("<i4", "<i8", "<f4"), repeat=nf)):
                yield ("X", nr, dts, tuple((3, 0, 2, 41)[(i + j) % 4] for j in range(nf)), i % 2)
                if i % 3 == 0:
                    yield ("X", nr, dts, tuple((3, None)[(i + j) % 2] for j in range(nf)), i % 2)


def main():
    chk = Check("C11", "exploration")

    def replay(case):
        res, status, log = M.real_run("checks.c11", "read", SPEC.args(case)[0], [case], 200)
        if not res:
            return f"{status} {log}"
        bad = [x[1] for x in res[0] if x[0] != "ok"]
        return bad[0] if bad else SPEC.oracle(case, [x[1] for x in res[0]])
    if chk.replay_requested({"": replay}):
        return
    cs = list(cases(chk.thorough))
    M.run_real(chk, "checks.c11", SPEC, cs, family="file sets", nontrivial=lambda c: any(isinstance(s, int) and s > 0 for s in c[2]))
    xs = list(x_cases(chk.thorough))
    M.run_real(chk, "checks.c11", SPEC, xs, family="types that disagree", nontrivial=lambda c: len(set(c[2])) > 1)
    chk.assumptions = ["files of one set store a dataset with the same trailing shape and byte order", "run under the real MPI and HDF5: the schedule of ranks is not controlled (the communication inside is explored in C07 and C09)"]
    chk.finish(rule="every combination of file states (group missing, dataset missing, empty, few, many rows) for up to 5 files on up to 4 ranks (thorough: 8); naming, types, shapes, groups, options and buffer sizes rotate; non-trivial: some rows exist",
               extra={"states": len(cs) + len(xs)})


if __name__ == "__main__":
    main()
