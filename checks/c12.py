"""C12: collective and multi-file writes"""
import itertools
import os
import numpy as np
from mc.framework import Check, use_repo
from mc import mpicheck as M, enum as E
from checks import c11

use_repo()
WORK = c11.WORK
DT = ["<i8", "<f4", "<i4", "<u8", "|u1", "<f8", "<i2", "|S5", "pair", "|b1", ">i4"]
TRAIL = [(), (3,), (2, 2), (1,), (0,)]


def dtype(d):
    return np.dtype([("a", "<i4"), ("b", "<f8")]) if d == "pair" else np.dtype(d)


def fill(n, trail, d, base=0):
    dt = dtype(d)
    m = n * int(np.prod(trail, dtype=int))
    v = np.arange(base, base + m) * 3 + 1
    if dt.names:
        a = np.zeros(m, dtype=dt)
        a["a"], a["b"] = v, v * 0.5
    elif dt.kind == "b":
        a = (v % 7 < 3)
    else:
        a = (v % 97 if dt.itemsize < 2 else v % 30000).astype(dt)
    return a.reshape((n,) + trail)


# ---- ("W", ranks, sizes, dtype, trail, buffer, existing dataset?, gzip/shuffle/chunk, k)
def w_prog(rank, comm, ph, case, d):
    import h5py
    _, nr, sizes, dt, trail, buf, existing, comp, k = case
    full = fill(sum(sizes), trail, dt)
    fn = os.path.join(d, "w.hdf5")
    if rank == 0:
        os.makedirs(d, exist_ok=True)
        with h5py.File(fn, "w") as f:
            f["keep"] = np.arange(5)
            g = f.create_group("G") if k % 2 else f
            if existing:
                g.create_dataset("D", shape=full.shape, dtype=full.dtype).attrs["old"] = 3
    comm.Barrier()
    part = E.split(full, sizes)[rank]
    part = np.asfortranarray(part) if k % 5 == 1 else part
    keep = part.copy()
    with h5py.File(fn, "r+", driver="mpio", comm=comm) as f:
        g = f["G"] if k % 2 else f
        kw = {}
        if comp:
            kw = [dict(gzip=4), dict(shuffle=True), dict(gzip=1, shuffle=True, chunk=3)][comp - 1]
        ds = ph.collective_write(g, "D", part, comm, buffer_size=buf, create_dataset=not existing, **kw)
        shape = tuple(ds.shape)
    comm.Barrier()
    back = err = None
    if rank == 0:
        with h5py.File(fn, "r") as f:
            g = f["G"] if k % 2 else f
            x = g["D"][...]
            if sorted(f) != sorted({"keep", "G" if k % 2 else "D"}) or f["keep"][...].tolist() != list(range(5)) or (k % 2 and list(g) != ["D"]):
                err = f"file holds {sorted(f)}"
            if existing and dict(g["D"].attrs) != {"old": 3}:
                err = f"attributes {dict(g['D'].attrs)}"
            if shape != full.shape or x.shape != full.shape or x.dtype != full.dtype or not np.array_equal(x, full):
                err = f"stored {x.dtype.str} {x.tolist()}, expected {full.dtype.str} {full.tolist()}"
    with h5py.File(fn, "r", driver="mpio", comm=comm) as f:
        r = ph.collective_read(f["G/D" if k % 2 else "D"], comm, buffer_size=buf)
    n = len(full) // nr + (1 if rank < len(full) % nr else 0)
    if err is None and (len(r) != n or not np.array_equal(np.concatenate([np.asarray(y) for y in comm.allgather(r)]), full)):
        err = "collective_read of the dataset differs from what was written"
    elif err is not None:
        comm.allgather(r)
    if not np.array_equal(part, keep):
        err = "the array given to collective_write was modified"
    return err


# ---- ("M", read case of c11, output naming, mode, group, attrs?, compression)
def m_prog(rank, comm, ph, case, d):
    import h5py
    _, rc, naming, mode, group, attrs, comp = case
    if rank == 0:
        c11.write_files(rc, d)
    comm.Barrier()
    mf = c11.make_multifile(rc, d, comm, ph)
    rgroup = rc[5]
    data = {}
    out = os.path.join(d, "out.%(file_nr)d.h5" if naming == "%" else "out.{file_nr}.h5")
    names = [os.path.join(d, f"out.{i}.h5") for i in c11.numbers(rc)]
    if naming == "list":
        names = [os.path.join(d, f"{'qwertyuio'[i]}.h5") for i in range(len(rc[2]))]
        out = names
    if mode in ("r+", "a") and rank == 0:
        for i, f in enumerate(names):
            with h5py.File(f, "w") as h:
                h["old/x"] = np.arange(i + 2)
                h["old"].attrs["n"] = i
                if group and i % 2:
                    h.create_group(group)["other"] = np.arange(3)
    comm.Barrier()
    wrote = []
    cur = mode
    for nm in ("A", "B"):
        x = mf.read(nm, group=rgroup)
        if x is None:
            continue
        per = mf.get_elements_per_file(nm, group=rgroup)
        at = {nm: {"unit": "Mpc", "scale": 0.5, "vec": np.asarray([1, 2])}} if attrs else None
        kw = [{}, dict(gzip=3), dict(shuffle=True, chunk=4)][comp]
        payload = {nm: x}
        if nm == "A":
            payload["A2"] = np.asarray(x).copy()
            if at:
                at["A2"] = {"only": 7}
        keep = np.asarray(x).copy()
        mf.write(payload, per, out, cur, group=group, attrs=at, **kw)
        if not np.array_equal(keep, np.asarray(x)):
            return "the data given to write were modified"
        cur = "r+"
        wrote += list(payload)
    comm.Barrier()
    err = None
    if rank == 0:
        err = check_files(case, names, wrote)
    # and back: the same elements on the same ranks
    if wrote:
        mf2 = ph.MultiFile(names, comm=comm)
        for nm in wrote:
            a = mf.read(nm[0], group=rgroup)
            b = mf2.read(nm, group=group)
            same = (np.asarray(a).dtype == np.asarray(b).dtype and np.array_equal(a, b))
            if not same and err is None:
                err = f"{nm} read back on rank {rank}: {np.asarray(b).tolist()}, written {np.asarray(a).tolist()}"
    comm.Barrier()
    return err


def check_files(case, names, wrote):
    import h5py
    _, rc, naming, mode, group, attrs, comp = case
    files = c11.content(rc)
    if not wrote:
        return None
    for i, (fn, c) in enumerate(zip(names, files)):
        if not os.path.exists(fn):
            return f"{os.path.basename(fn)} does not exist"
        with h5py.File(fn, "r") as h:
            g = h[group] if group else h
            old = {"old"} if mode in ("r+", "a") else set()
            extra = {"other"} if old and group and i % 2 else set()
            want = set(wrote) | extra | (old if not group else set())
            if set(g) != want:
                return f"file {i}: group {group} holds {sorted(g)}, expected {sorted(want)}"
            if group and set(h) != old | {group.split("/")[0]}:
                return f"file {i}: root holds {sorted(h)}"
            if old and (h["old/x"][...].tolist() != list(range(i + 2)) or h["old"].attrs["n"] != i):
                return f"file {i}: existing contents changed"
            if extra and g["other"][...].tolist() != [0, 1, 2]:
                return f"file {i}: existing dataset changed"
            for nm in wrote:
                like = next(f[nm[0]] for f in files if f is not None and nm[0] in f)
                x = c[nm[0]] if c is not None and nm[0] in c else like[:0]
                y = g[nm][...]
                if y.dtype != x.dtype.newbyteorder("=") or y.shape != x.shape or not np.array_equal(x, y):
                    return f"file {i}: {nm} is {y.dtype.str} {y.tolist()}, expected {x.tolist()}"
                at = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in g[nm].attrs.items()}
                wa = {} if not attrs else ({"only": 7} if nm == "A2" else {"unit": "Mpc", "scale": 0.5, "vec": [1, 2]})
                if at != wa:
                    return f"file {i}: {nm} has attributes {at}, expected {wa}"


# ---- ("I", ranks, which rank differs, how): reported on the ranks which differ from rank 0 (all of them)
def i_run(case):
    for _ in range(2):     # mpirun itself may fail: what counts must happen again
        v = i_job(case)
        if not v:
            break
    return v


def i_job(case):
    """A job of its own: the ranks that agree wait for the others"""
    import subprocess, sys, tempfile, textwrap
    _, nr, differ, how = case
    code = textwrap.dedent(f"""
        import sys, os, time
        import numpy as np, h5py
        from mpi4py import MPI
        import virgo.mpi.parallel_hdf5 as ph
        comm = MPI.COMM_WORLD; rank = comm.Get_rank()
        bad = rank in {tuple(differ)!r}
        x = np.zeros((3, 2 if bad and {how == 'shape'} else 4), dtype=np.int32 if bad and {how == 'type'} else np.int64)
        if bad and {how == 'dims'}: x = np.zeros((3, 4, 1))
        f = h5py.File(sys.argv[1], "w", driver="mpio", comm=comm)
        comm.Barrier()
        try:
            ph.collective_write(f, "D", x, comm)
            open(sys.argv[1] + ".none%d" % rank, "w").close()
        except Exception as e:
            open(sys.argv[1] + ".err%d" % rank, "w").close()
        while sum(os.path.exists(sys.argv[1] + ".err%d" % r) for r in {tuple(differ)!r}) < {len(differ)}:
            time.sleep(0.02)
        os._exit(0)
        """)
    with tempfile.TemporaryDirectory(dir=WORK) as d:
        fn = os.path.join(d, "f.h5")
        p = subprocess.Popen(["mpirun", "--oversubscribe", "-np", str(nr), sys.executable, "-c", code, fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            p.communicate(timeout=30)
        except subprocess.TimeoutExpired:
            pass
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        missing = [r for r in differ if not os.path.exists(fn + f".err{r}")]
        if missing:
            return f"rank(s) {missing} hold data of another {how} than rank 0 but raise no error"


def prog(rank, comm, mods, case):
    ph = mods["virgo.mpi.parallel_hdf5"]
    d = comm.bcast(os.path.join(WORK, f"c12-{os.getpid()}"))
    buf = ph.BUFFER_SIZE
    try:
        if case[0] == "W":
            return w_prog(rank, comm, ph, case, d)
        if case[1][8]:
            ph.BUFFER_SIZE = case[1][8]
        return m_prog(rank, comm, ph, case, d)
    finally:
        ph.BUFFER_SIZE = buf
        comm.Barrier()
        if rank == 0 and os.path.isdir(d):
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
        comm.Barrier()


def oracle(case, vals):
    for r, v in enumerate(vals):
        if v:
            return f"rank {r}: {v}"


SPEC = M.part_of_program(M.Spec("write", ("virgo.mpi.parallel_hdf5",), prog, lambda c: (c[1] if c[0] == "W" else c[1][1],) * 2 and ((c[1] if c[0] == "W" else c[1][1]), [(c,)] * (c[1] if c[0] == "W" else c[1][1])), oracle))
SPECS = [SPEC]


def w_cases(t):
    k = 0
    for nr, vals_ in ((1, (0, 1, 2, 5)), (2, (0, 1, 2, 5)), (3, (0, 1, 4)), (4, (0, 3) if not t else (0, 1, 3))):
        for sizes in itertools.product(vals_, repeat=nr):
            for i in range(6):
                trail = TRAIL[(k // 2) % len(TRAIL)]
                dt = DT[k % len(DT)]
                row = max(1, dtype(dt).itemsize * int(np.prod(trail, dtype=int)))
                yield ("W", nr, sizes, dt, trail, (None, row, 2 * row, 2 * row + 1, 1)[k % 5], k % 3 == 2, k % 4 if k % 3 != 2 else 0, k)
                k += 1


def m_cases(t):
    k = 0
    for nr in (1, 2, 3, 4) + ((5, 8) if t else ()):
        for nf, st in ((1, ("g", 0, 1, 43)), (2, ("g", "d", 0, 3, 43)), (3, ("d", 0, 2, 33)), (4, (0, 2, "g")), (6, (0, 3)) if t else (5, (0, 3))):
            if nf > 3 and nr > 2 and not t:
                st = (0, 2)
            for states in itertools.product(st, repeat=nf):
                trail = c11.TRAIL[(k // 3) % len(c11.TRAIL)]
                dt = c11.DT[k % len(c11.DT)]
                row = np.dtype(dt).itemsize * int(np.prod(trail, dtype=int))
                rc = ("R", nr, states, dt, trail, (None, "G", "G/Sub")[k % 3] if "g" not in states else "G", c11.NAMING[k % len(c11.NAMING)], 0, (None, max(16, row), None, max(16, 3 * row))[k % 4], k)
                yield ("M", rc, ("%", "{", "list")[k % 3], ("w", "r+", "a", "x", "w-")[k % 5], (None, "H", "H/I", None)[(k // 2) % 4], (k // 3) % 2, (k // 4) % 3)
                k += 1


def i_cases(t):
    for nr, differ in ((2, (1,)), (3, (1,)), (3, (2,)), (3, (1, 2))):
        for how in ("shape", "type", "dims"):
            yield ("I", nr, differ, how)


def main():
    chk = Check("C12", "exploration")

    def replay(case):
        if case[0] == "I":
            return i_run(case)
        res, status, log = M.real_run("checks.c12", "write", SPEC.args(case)[0], [case], 200)
        if not res:
            return f"{status} {log}"
        bad = [x[1] for x in res[0] if x[0] != "ok"]
        return bad[0] if bad else SPEC.oracle(case, [x[1] for x in res[0]])
    if chk.replay_requested({"": replay}):
        return
    ws, ms, iss = list(w_cases(chk.thorough)), list(m_cases(chk.thorough)), list(i_cases(chk.thorough))
    M.run_real(chk, "checks.c12", SPEC, ws, family="one file", nontrivial=lambda c: sum(c[2]) > 0)
    M.run_real(chk, "checks.c12", SPEC, ms, family="set of files", nontrivial=lambda c: any(isinstance(s, int) and s > 0 for s in c[1][2]))
    chk.run_cases("inconsistent data", iss, i_run, nproc=3)
    chk.assumptions = ["HDF5 before 1.12: the package does not compress in parallel, so the compression options must only not change the data",
                       "run under the real MPI and HDF5: the schedule of ranks is not controlled"]
    chk.finish(rule="every division of rows over ranks in bounds and every combination of file states; types, shapes, buffer sizes, existing targets, modes, groups, naming and options rotate; non-trivial: something is written",
               extra={"states": len(ws) + len(ms) + len(iss)})


if __name__ == "__main__":
    main()
