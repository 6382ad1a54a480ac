"""C03: parallel unique"""
import numpy as np
from mc.framework import Check, use_repo
from mc import mpicheck as M, enum as E

use_repo()
DT = ["int64", "pair", "uint64", "float64", "int32", "uint8", "float32"]


# case: (sizes, pattern, dtype, rot, arr_sorted, counts, repartition)
def build(case):
    a = E.values(case[2], case[1], case[3])
    if case[4]:
        a = np.sort(a, kind="stable")
    return a


def args(case):
    return len(case[0]), [(x.copy(),) + tuple(case[4:]) for x in E.split(build(case), case[0])]


def prog(rank, comm, mods, a, srt, counts, rep):
    ps = mods["virgo.mpi.parallel_sort"]
    a0 = a.copy()
    res = ps.parallel_unique(a, comm=comm, arr_sorted=srt, return_counts=counts, repartition_output=rep)
    if counts:
        u, c = res
        c = np.asarray(c)
    else:
        u, c = res, None
    return np.asarray(u), c, bool(E.same(a, a0))


def oracle(case, vals):
    a = build(case)
    u, c = np.unique(a, return_counts=True)
    for r, v in enumerate(vals):
        if not v[2]:
            return f"rank {r}: the input was modified"
        if case[5] and v[1].shape != v[0].shape:
            return f"rank {r}: {v[0].shape} values but {v[1].shape} counts"
        if v[0].dtype != a.dtype:
            return f"rank {r}: values have dtype {v[0].dtype}, input {a.dtype}"
    got = np.concatenate([v[0] for v in vals])
    if not E.same(got, u):
        return f"unique values {got}, expected {u}"
    if case[5]:
        gc = np.concatenate([v[1] for v in vals])
        if not np.array_equal(gc, c) or (len(gc) and gc.dtype.kind not in "iu"):
            return f"counts {gc}, expected {c}"
    if case[6]:
        n, k = len(u), len(case[0])
        want = [n // k + (1 if i < n % k else 0) for i in range(k)]
        if [len(v[0]) for v in vals] != want:
            return f"divided as {[len(v[0]) for v in vals]}, expected {want}"
    return None


UNIQ = M.Spec("unique", ("virgo.mpi.parallel_sort",), prog, args, oracle, sub=True)
SPECS = [UNIQ]


def small(nr, nmax):
    k = 0
    for n in range(nmax + 1):
        for p in E.weak_orders(n):
            for s in E.compositions(n, nr):
                opts = [(False, True, k % 2 == 0)] if n > 3 else [(False, True, True), (False, True, False), (False, False, k % 2 == 0)]
                if list(p) == sorted(p):
                    opts = opts + [(True, True, False), (True, True, True), (True, False, True)]
                for o in opts:
                    yield (s, p, DT[k % len(DT)], k) + o
                k += 1


def runs(thorough):
    """One or two values in long runs over many ranks, with empty ranks in every position"""
    k = 0
    for nr in ((3, 4, 5, 6, 8) if thorough else (4, 5, 6)):
        for occ in range(1, 1 << nr):
            sizes = tuple((2 if i % 2 else 1) if occ >> i & 1 else 0 for i in range(nr))
            n = sum(sizes)
            for cut1 in range(0, n + 1):
                for cut2 in {cut1, n, (cut1 + n) // 2}:
                    p = (0,) * cut1 + (1,) * (cut2 - cut1) + (2,) * (n - cut2)
                    m = {v: i for i, v in enumerate(sorted(set(p)))}
                    p = tuple(m[v] for v in p)
                    yield (sizes, p if k % 3 else p[::-1] if False else p, DT[k % len(DT)], k, k % 2 == 0, True, k % 3 == 0)
                    k += 1
    for nr in (3, 4, 8):
        for n in (20, 41):
            base = [n // nr + (1 if i < n % nr else 0) for i in range(nr)]
            for p in (tuple(range(n)), (0,) * n, tuple(i // 5 for i in range(n)), tuple(i % 4 for i in range(n)), tuple(range(n))[::-1]):
                for s in (tuple(base), (n,) + (0,) * (nr - 1), (0,) * (nr - 1) + (n,)):
                    for o in ((False, True, True), (False, True, False)):
                        yield (s, p, ("int64", "float64")[k % 2], k) + o
                        k += 1


def main():
    chk = Check("C03", "model_checking")
    if chk.replay_requested({"": lambda c: (M.S.install(), UNIQ.sim_case(c))[1]}):
        return
    t = chk.thorough
    bounds = {1: 4, 2: 5, 3: 4 if not t else 5, 4: 3 if not t else 4, 5: 3}
    n = 0
    for nr, m in bounds.items():
        cases = list(small(nr, m))
        n += len(cases)
        M.run_spec(chk, "checks.c03", UNIQ, cases, nreal=100, family=f"all inputs <= {m} elements on {nr} ranks", nontrivial=lambda c: sum(1 for s in c[0] if s) > 1)
    cases = list(runs(t))
    n += len(cases)
    M.run_spec(chk, "checks.c03", UNIQ, cases, nreal=60, family="runs over several ranks with every pattern of empty ranks")
    chk.assumptions = ["non-contiguous arrays excluded; NaNs count as one value, as in numpy"]
    chk.finish(rule="every order type x every division over ranks x options; non-trivial: two ranks hold elements", extra={"states": n, "bounds": {str(k): v for k, v in bounds.items()}})


if __name__ == "__main__":
    main()
