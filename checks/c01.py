"""C01: parallel sort"""
import numpy as np
from mc.framework import Check, use_repo
from mc import mpicheck as M, enum as E

use_repo()
DT = ["int64", "float64", "uint64", "float32", "int32", "pair", "int8", "uint32"]


# case: (sizes, pattern, dtype, rot, mode) mode: 0 no index, 1 index, 2 index+noncontiguous+default comm
def build(case):
    sizes, pattern, dt, rot, mode = case
    return E.values(dt, pattern, rot)


def args(case):
    sizes, pattern, dt, rot, mode = case
    parts = E.split(build(case), sizes)
    return len(sizes), [(p.copy(), mode) for p in parts]


def prog(rank, comm, mods, a, mode):
    ps = mods["virgo.mpi.parallel_sort"]
    kw = {} if mode == 2 else {"comm": comm}
    idx = ps.parallel_sort(a, return_index=mode > 0, **kw)
    return np.array(a), idx


def oracle(case, vals):
    sizes, pattern, dt, rot, mode = case
    x = build(case)
    order = np.argsort(x, kind="stable")
    for r, (a, idx) in enumerate(vals):
        if len(a) != sizes[r]:
            return f"rank {r} has {len(a)} elements, had {sizes[r]}"
    got = np.concatenate([v[0] for v in vals])
    if got.dtype != x.dtype or not E.same(got, x[order]):
        return f"sorted array is {got}, expected {x[order]}"
    if mode == 0:
        if any(v[1] is not None for v in vals):
            return "index returned without being requested"
        return None
    for r, v in enumerate(vals):
        if v[1] is None or len(v[1]) != sizes[r]:
            return f"index on rank {r} is {v[1]}"
    gi = np.concatenate([v[1] for v in vals])
    if len(gi) and (gi.dtype.kind not in "iu" or gi.dtype.itemsize < 8):
        return f"index dtype {gi.dtype} cannot hold every global index"
    if not np.array_equal(gi, order):
        return f"index is {gi}, expected {order}"
    return None


SORT = M.Spec("sort", ("virgo.mpi.parallel_sort",), prog, args, oracle, sub=lambda c: c[4] != 2)
SPECS = [SORT]


def small(nranks, nmax, nmin=0):
    k = 0
    for n in range(nmin, nmax + 1):
        for pat in E.weak_orders(n):
            for sizes in E.compositions(n, nranks):
                yield (sizes, pat, DT[k % len(DT)], k, 1 + (k % 17 == 3) if k % 7 else 0)
                k += 1


def larger(thorough):
    """Structured larger inputs: runs, reversals and interleavings"""
    k = 0
    shapes = [lambda n: tuple(range(n)), lambda n: tuple(range(n))[::-1], lambda n: (0,) * n,
              lambda n: tuple(i // 3 for i in range(n)), lambda n: tuple((n - 1 - i) // 4 for i in range(n)),
              lambda n: tuple(i % 2 for i in range(n)), lambda n: tuple((i * 7) % n for i in range(n)),
              lambda n: tuple((i * i) % 5 for i in range(n)), lambda n: tuple(min(i, n - 1 - i) for i in range(n)),
              lambda n: (1,) * (n // 2) + (0,) * (n - n // 2)]
    for nranks in (2, 3, 4, 5, 7, 8) if thorough else (3, 4, 5, 8):
        for n in ((12, 33, 64, 100) if thorough else (13, 40)):
            base = n // nranks
            splits = {tuple(base + (1 if i < n % nranks else 0) for i in range(nranks)),
                      (n,) + (0,) * (nranks - 1), (0,) * (nranks - 1) + (n,),
                      (1,) * (nranks - 1) + (n - nranks + 1,),
                      tuple(n if i == nranks // 2 else 0 for i in range(nranks))}
            if nranks >= 3:
                h = n // 2
                splits.add((h,) + (0,) * (nranks - 2) + (n - h,))
                splits.add((0, h) + (0,) * (nranks - 3) + (n - h,))
                splits.add((1, 0) + (n - 2,) + (0,) * (nranks - 4) + ((1,) if nranks > 3 else ()) if nranks > 3 else (1, n - 2, 1))
            for sizes in sorted(splits):
                for f in shapes:
                    p = f(n)
                    ranks = {v: i for i, v in enumerate(sorted(set(p)))}
                    dt = DT[k % 7]
                    if dt == "int8" and n > 100:
                        dt = "int64"
                    yield (sizes, tuple(ranks[v] for v in p), dt, k, k % 3)
                    k += 1


def main():
    chk = Check("C01", "model_checking")
    if chk.replay_requested({"": lambda c: (M.S.install(), SORT.sim_case(c))[1]}):
        return
    t = chk.thorough
    bounds = {1: 4, 2: 5 if not t else 6, 3: 5, 4: 4 if not t else 5, 5: 3 if not t else 4, 6: 3, 8: 2}
    nstates = 0
    for n, m in bounds.items():
        cases = list(small(n, m))
        nstates += len(cases)
        M.run_spec(chk, "checks.c01", SORT, cases, nreal=120, family=f"all inputs <= {m} elements on {n} ranks",
                   nontrivial=lambda c: sum(1 for s in c[0] if s) > 1)
    cases = list(larger(t))
    M.run_spec(chk, "checks.c01", SORT, cases, nreal=40, family="structured larger inputs", nontrivial=lambda c: True)
    nstates += len(cases)
    chk.assumptions = ["sorting depends on the values only through comparisons, so all order types stand for all inputs of that size",
                       "non-contiguous arrays (which MPI cannot send) are excluded; NaN is sorted last, as by numpy; the simulated MPI follows the standard (validated by replaying cases under Open MPI)"]
    chk.finish(rule="every order type of n elements x every division over ranks; dtype and value window rotate over the enumeration; non-trivial: at least two ranks hold elements",
               extra={"states": nstates, "bounds": {f"{n} ranks": f"<= {m} elements" for n, m in bounds.items()}})


if __name__ == "__main__":
    main()
