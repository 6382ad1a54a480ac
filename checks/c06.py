"""C06: reduce_elements and parallel_bincount"""
import itertools
import numpy as np
from mc.framework import Check, use_repo
from mc import mpicheck as M, enum as E

use_repo()
SHAPES = [(), (2,), (1, 2)]
OPS = ["np.add", "MPI.SUM", "np.maximum", "MPI.MAX", "np.multiply", "MPI.MIN", "np.minimum", "MPI.PROD", "np.bitwise_or", "np.subtract", "MPI.BXOR"]
NPOP = {"subtract": np.subtract, "BXOR": np.bitwise_xor,
        "add": np.add, "SUM": np.add, "maximum": np.maximum, "MAX": np.maximum, "multiply": np.multiply, "PROD": np.multiply,
        "MIN": np.minimum, "minimum": np.minimum, "bitwise_or": np.bitwise_or}


# numpy operators also take updates of a type which can be cast to that of the array
UDT = {"np.add": {"float64": "int32", "int64": "uint8"}, "np.maximum": {"float64": "float32", "int64": "int16"}, "np.subtract": {"float64": "float32", "int32": "int8"}}


# ("U", arr sizes, index lists, op, trail, dtype)
def base(case):
    _, sizes, idx, op, trail, dt = case
    n = sum(sizes)
    m = int(np.prod(trail, dtype=int))
    arr = (np.arange(n * m) % 5 + 1).astype(dt).reshape((n,) + trail)
    ups = []
    k = 0
    for l in idx:
        u = ((np.arange(k, k + len(l) * m) * 3) % 7 + 1).astype(UDT.get(op, {}).get(dt, dt)).reshape((len(l),) + trail)
        ups.append(u)
        k += len(l) * m
    return arr, ups


def u_args(case):
    arr, ups = base(case)
    return len(case[1]), [(a.copy(), u.copy(), np.asarray(i, dtype=(np.int64, np.int32, np.uint64, np.uint8, np.int64)[(len(case[2][0]) + len(case[2][-1]) + sum(case[1])) % 5]), case[3]) for a, u, i in zip(E.split(arr, case[1]), ups, case[2])]


def u_prog(rank, comm, mods, arr, ups, idx, op):
    ps = mods["virgo.mpi.parallel_sort"]
    from mpi4py import MPI
    o = getattr(MPI, op[4:]) if op.startswith("MPI.") else getattr(np, op[3:])
    u0, i0 = ups.copy(), idx.copy()
    ps.reduce_elements(arr, ups, idx, o, comm=comm)
    return arr, bool(np.array_equal(u0, ups) and np.array_equal(i0, idx))


def u_oracle(case, vals):
    arr, ups = base(case)
    f = NPOP[case[3].split(".")[1]]
    for l, u in zip(case[2], ups):
        for i, j in enumerate(l):
            arr[j] = f(arr[j], u[i])
    for r, (a, want) in enumerate(zip([v[0] for v in vals], E.split(arr, case[1]))):
        if a.shape != want.shape or not np.array_equal(a, want):
            return f"rank {r} holds {a.tolist()}, expected {want.tolist()}"
    if not all(v[1] for v in vals):
        return "updates or indexes were modified"


UPD = M.Spec("update", ("virgo.mpi.parallel_sort",), u_prog, u_args, u_oracle, sub=True)


# ("B", value lists, weights kind, minlength, result sizes or None, dtype)
def weights(case):
    out, k = [], 0
    for l in case[1]:
        w = np.arange(k, k + len(l))
        if case[2] == "float":
            w = w * 0.25 - 0.5
        elif case[2] == "int":
            w = w * 3 - 2
        elif case[2] == "big":
            w = w + 2**53 + 1        # sums which floating point numbers can't hold
        elif case[2] == "bool":
            w = w % 3 != 1
        elif case[2] is not None:
            w = ((w * 37 + 100) % 128).astype(case[2])
        out.append(w)
        k += len(l)
    return out


def b_args(case):
    _, xs, wk, ml, rs, dt = case
    ws = weights(case)
    out = []
    for r in range(len(xs)):
        w = None if wk is None else ws[r]
        res = None if rs is None else (np.full(rs[r], 10, dtype=float if wk in ("float", "float32") else np.int64))
        out.append((np.asarray(xs[r], dtype=dt), w, ml, res))
    return len(xs), out


def b_prog(rank, comm, mods, x, w, ml, res):
    ps = mods["virgo.mpi.parallel_sort"]
    x0 = x.copy()
    kw = {}
    if w is not None:
        kw["weights"] = w
    if ml is not None:
        kw["minlength"] = ml
    if res is not None:
        kw["result"] = res
    out = ps.parallel_bincount(x, comm=comm, **kw)
    return np.asarray(out), bool(np.array_equal(x, x0)), res


def b_oracle(case, vals):
    _, xs, wk, ml, rs, dt = case
    n = len(xs)
    x = np.concatenate([np.asarray(l, dtype=np.int64) for l in xs])
    w = np.concatenate(weights(case)) if wk else None
    nb = (int(x.max()) + 1) if len(x) else 0
    full = np.bincount(x, weights=w if wk == "float" else None, minlength=max(ml or 0, nb))
    if wk not in (None, "float"):     # (numpy adds integer weights as floating point numbers)
        full = np.zeros(len(full), dtype=np.float64 if wk.startswith("float") else np.int64)
        for i, v in zip(x.tolist(), w.tolist()):
            full[i] += v
    got = [v[0] for v in vals]
    allg = np.concatenate(got)
    if rs is not None:
        want = np.full(sum(rs), 10, dtype=full.dtype)
        want[:len(full)] += full
        for r, v in enumerate(vals):
            if len(v[0]) != rs[r] or not np.array_equal(v[2], v[0]):
                return f"rank {r}: the supplied result array was not used"
    else:
        want = full
        if len(allg) and not len(x) and len(want) == 0:
            want = np.zeros(len(allg))   # an empty input may give one empty bin
            if len(allg) > 1:
                return f"{len(allg)} bins for no input"
        k = len(want)
        sizes = [k // n + (1 if i < k % n else 0) for i in range(n)]
        if [len(g) for g in got] != sizes:
            return f"bins divided as {[len(g) for g in got]}, expected {sizes}"
    if len(allg) != len(want) or not (np.array_equal(allg, want) if wk == "big" else np.allclose(allg, want, rtol=1e-12, atol=0)):
        return f"bins {allg.tolist()}, expected {want.tolist()}"
    if wk not in ("float", "float32") and allg.dtype.kind not in "iu":
        return f"integer counts returned as {allg.dtype}"
    if not all(v[1] for v in vals):
        return "input modified"


BIN = M.Spec("bincount", ("virgo.mpi.parallel_sort",), b_prog, b_args, b_oracle, sub=True)
SPECS = [UPD, BIN]


def u_cases(t):
    k = 0
    for nr, nmax, mmax in ((1, 3, 3), (2, 3, 4 if t else 3), (3, 3, 3), (4, 2, 2)):
        for n in range(0, nmax + 1):
            for s in E.compositions(n, nr):
                for m in range(mmax + 1 if n else 1):
                    for q in E.compositions(m, nr):
                        for idx in itertools.product(range(n), repeat=m):
                            op = OPS[k % len(OPS)]
                            dt = "int64" if "bitwise" in op or "XOR" in op else ("float64", "int64", "int32")[(k // 9) % 3]
                            yield ("U", s, tuple(tuple(x) for x in E.split(idx, q)), op, SHAPES[(k // 5) % 3], dt)
                            k += 1
    for nr in (3, 5, 8):
        n = 21
        basew = tuple(n // nr + (1 if i < n % nr else 0) for i in range(nr))
        for s in (basew, (n,) + (0,) * (nr - 1), (0,) * (nr - 1) + (n,), (0, 10) + (0,) * (nr - 3) + (11,)):
            for f in (lambda r, i: i % n, lambda r, i: (i * 5 + r) % n, lambda r, i: n - 1 - (i % n), lambda r, i: (3 * r) % n, lambda r, i: 0):
                for op in ("np.add", "MPI.SUM", "np.maximum"):
                    yield ("U", s, tuple(tuple(f(r, i) for i in range((7 * r) % 30)) for r in range(nr)), op, SHAPES[k % 3], "int64")
                    k += 1


def b_cases(t):
    k = 0
    for nr, mmax, vmax in ((1, 3, 3), (2, 4, 3), (3, 4 if t else 3, 3), (4, 3, 2)):
        for m in range(mmax + 1):
            for q in E.compositions(m, nr):
                for x in itertools.product(range(vmax + 1), repeat=m):
                    xs = tuple(tuple(y) for y in E.split(x, q))
                    wk = (None, "int", "float", "big", "bool", None, "int8", "uint8", "float32", "int32")[(k + k // 10) % 10]
                    ml = (None, 1, 2, 5, None, 9)[(k // 3) % 6]
                    rs = None
                    if k % 4 == 1:
                        need = max((max(x) + 1) if m else 1, ml or 1)
                        rs = (need + (k // 4) % 3,) + (0,) * (nr - 1)
                        rs = [rs, tuple(reversed(rs)), tuple(need // nr + 1 for _ in range(nr)), (0,) * (nr // 2) + (need,) + (0,) * (nr - nr // 2 - 1)][(k // 4) % 4]
                    yield ("B", xs, wk, ml, rs, ("int64", "uint8", "int32", "uint64", "int16")[k % 5])
                    k += 1


def main():
    chk = Check("C06", "model_checking")
    if chk.replay_requested({"update": lambda c: (M.S.install(), UPD.sim_case(c))[1], "bincount": lambda c: (M.S.install(), BIN.sim_case(c))[1]}):
        return
    uc, bc = list(u_cases(chk.thorough)), list(b_cases(chk.thorough))
    M.run_spec(chk, "checks.c06", UPD, uc, nreal=150, nontrivial=lambda c: any(c[2]))
    M.run_spec(chk, "checks.c06", BIN, bc, nreal=150, nontrivial=lambda c: any(c[1]))
    chk.assumptions = ["operators are commutative and associative on the values used, as MPI requires", "indexes are in range"]
    chk.finish(rule="every division of the target, every index or value list, within bounds; operators, dtypes, row shapes and options rotate; non-trivial: at least one update", extra={"states": len(uc) + len(bc)})


if __name__ == "__main__":
    main()
