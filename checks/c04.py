"""C04: repartition and fetch_elements"""
import itertools
import numpy as np
from mc.framework import Check, use_repo
from mc import mpicheck as M, enum as E

use_repo()
DT = ["int64", "float32", "uint8", "pair", "uint64", "int32", "bool", "S3"]
SHAPES = [(), (3,), (2, 2), (1,)]


def rows(n, dt, trail):
    m = int(np.prod(trail, dtype=int))
    k = np.arange(n * m)
    if dt == "pair":
        a = np.zeros(n * m, dtype=E.pair_t)
        a["a"], a["b"] = k + 1, -k - 5
    elif dt == "bool":
        a = (k * 5 // 3) % 2 == 0
    elif dt == "S3":
        a = np.array([b"%03d" % i for i in k], dtype="S3") if len(k) else np.zeros(0, dtype="S3")
    elif dt == "uint64":
        a = k.astype(np.uint64) + np.uint64(2**63)
    else:
        a = (k + 1).astype(dt)
    return a.reshape((n,) + trail)


# repartition case: ("R", sizes, ndesired, dtype, trail, kind)
def r_args(case):
    _, sizes, want, dt, trail, kind = case
    a = rows(sum(sizes), dt, trail)
    nd = {0: np.asarray(want), 1: list(want), 2: np.asarray(want, dtype=np.int32), 3: np.asarray(want, dtype=np.int64)}[kind % 4]
    return len(sizes), [(x.copy(), nd, kind) for x in E.split(a, sizes)]


def r_prog(rank, comm, mods, a, nd, kind):
    ps = mods["virgo.mpi.parallel_sort"]
    a0 = a.copy()
    out = ps.repartition(a, nd) if kind == 2 else ps.repartition(a, nd, comm=comm)
    return np.asarray(out), bool(np.array_equal(a, a0))


def r_oracle(case, vals):
    _, sizes, want, dt, trail, kind = case
    a = rows(sum(sizes), dt, trail)
    for r, (v, same) in enumerate(vals):
        if v.shape != (want[r],) + trail or v.dtype != a.dtype:
            return f"rank {r}: got {v.dtype}{v.shape}, expected {a.dtype}{(want[r],) + trail}"
        if not same:
            return f"rank {r}: input modified"
    if not np.array_equal(np.concatenate([v[0] for v in vals]), a):
        return f"rows {[v[0].tolist() for v in vals]}, expected {a.tolist()}"


REP = M.Spec("repartition", ("virgo.mpi.parallel_sort",), r_prog, r_args, r_oracle, sub=lambda c: c[5] != 2)


# fetch case: ("F", sizes, index lists, dtype, trail, kind)  kind 1: result supplied
def f_args(case):
    _, sizes, idx, dt, trail, kind = case
    a = rows(sum(sizes), dt, trail)
    out = []
    for x, i in zip(E.split(a, sizes), idx):
        ii = np.asarray(i, dtype=(np.int64, np.int32, np.int64, np.uint32)[kind % 4])
        out.append((x.copy(), ii, kind))
    return len(sizes), out


def f_prog(rank, comm, mods, a, idx, kind):
    ps = mods["virgo.mpi.parallel_sort"]
    a0, i0 = a.copy(), idx.copy()
    if kind % 3 == 1:
        result = np.zeros((len(idx),) + a.shape[1:], dtype=a.dtype)
        ret = ps.fetch_elements(a, idx, result=result, comm=comm)
        if ret is not None and ret is not result:
            return np.asarray(ret), False
        out = result
    elif kind % 3 == 2:
        out = ps.fetch_elements(a, idx)
    else:
        out = ps.fetch_elements(a, idx, comm=comm)
    return np.asarray(out), bool(np.array_equal(a, a0) and np.array_equal(idx, i0))


def f_oracle(case, vals):
    _, sizes, idx, dt, trail, kind = case
    a = rows(sum(sizes), dt, trail)
    for r, (v, same) in enumerate(vals):
        want = a[np.asarray(idx[r], dtype=int)]
        if v.shape != want.shape or v.dtype != want.dtype or not np.array_equal(v, want):
            return f"rank {r} asked for {idx[r]}: got {v.tolist()} {v.dtype}{v.shape}, expected {want.tolist()} {want.dtype}{want.shape}"
        if not same:
            return f"rank {r}: input modified"


FETCH = M.Spec("fetch", ("virgo.mpi.parallel_sort",), f_prog, f_args, f_oracle, sub=lambda c: c[5] % 3 != 2)
SPECS = [REP, FETCH]


def rep_cases(t):
    k = 0
    for nr, nmax in ((1, 3), (2, 5), (3, 5 if t else 4), (4, 4 if t else 3), (5, 2)):
        for n in range(nmax + 1):
            for s in E.compositions(n, nr):
                for w in E.compositions(n, nr):
                    yield ("R", s, w, DT[k % len(DT)], SHAPES[(k // 3) % len(SHAPES)], k)
                    k += 1
    for nr in (3, 4, 7):
        for n in (29, 60):
            base = tuple(n // nr + (1 if i < n % nr else 0) for i in range(nr))
            alts = [base, base[::-1], (n,) + (0,) * (nr - 1), (0,) * (nr - 1) + (n,), (1,) * (nr - 1) + (n - nr + 1,), (0, n // 2) + (0,) * (nr - 3) + (n - n // 2,)]
            for s in alts:
                for w in alts:
                    yield ("R", s, w, DT[k % len(DT)], SHAPES[k % len(SHAPES)], k)
                    k += 1


def fetch_cases(t):
    k = 0
    for nr, nmax, mmax in ((1, 3, 3), (2, 3, 4 if t else 3), (3, 3, 3), (4, 2, 2)):
        for n in range(1, nmax + 1):
            for s in E.compositions(n, nr):
                for m in range(mmax + 1):
                    for q in E.compositions(m, nr):
                        for idx in itertools.product(range(n), repeat=m):
                            yield ("F", s, tuple(tuple(x) for x in E.split(idx, q)), DT[k % len(DT)], SHAPES[(k // 3) % len(SHAPES)], k)
                            k += 1
        for s in E.compositions(0, nr):
            yield ("F", s, ((),) * nr, DT[k % len(DT)], SHAPES[k % len(SHAPES)], k)
            k += 1
    for nr in (3, 4, 7):
        for n in (23, 50):
            base = tuple(n // nr + (1 if i < n % nr else 0) for i in range(nr))
            for s in (base, (0,) * (nr - 1) + (n,), (n,) + (0,) * (nr - 1), (0, n // 2) + (0,) * (nr - 3) + (n - n // 2,)):
                for f in (lambda r, i: i, lambda r, i: n - 1 - i, lambda r, i: (i * 7 + r) % n, lambda r, i: (r * 5) % n, lambda r, i: (i // 3 + 2 * r) % n):
                    for cnt in (lambda r: n, lambda r: 0 if r == 1 else 9, lambda r: 12 if r == nr - 1 else 0):
                        yield ("F", s, tuple(tuple(f(r, i) for i in range(cnt(r))) for r in range(nr)), DT[k % len(DT)], SHAPES[k % len(SHAPES)], k)
                        k += 1


def main():
    chk = Check("C04", "model_checking")
    if chk.replay_requested({"repartition": lambda c: (M.S.install(), REP.sim_case(c))[1], "fetch": lambda c: (M.S.install(), FETCH.sim_case(c))[1]}):
        return
    rc, fc = list(rep_cases(chk.thorough)), list(fetch_cases(chk.thorough))
    M.run_spec(chk, "checks.c04", REP, rc, nreal=150, nontrivial=lambda c: sum(c[1]) > 0 and c[1] != c[2])
    M.run_spec(chk, "checks.c04", FETCH, fc, nreal=150, nontrivial=lambda c: any(c[2]))
    chk.assumptions = ["indexes are in range and totals are conserved, as the routines require"]
    chk.finish(rule="every source and target division, every index list, within bounds; dtype and row shape rotate; non-trivial: something has to move", extra={"states": len(rc) + len(fc)})


if __name__ == "__main__":
    main()
