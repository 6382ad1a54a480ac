"""C02: parallel match"""
import itertools
import numpy as np
from mc.framework import Check, use_repo
from mc import mpicheck as M, enum as E

use_repo()
DT = ["int64", "uint64", "float64", "int32", "uint8", "float32", "int8", "uint32"]


# two different types: values of either, which the other may not be able to represent
MIXED = {"float64|int64": ((0.5, 1.0, 2.0), (0, 1, 2)), "int64|float64": ((0, 1, 2), (0.5, 1.0, -0.5)), "int64|uint8": ((-1, 0, 256), (0, 255, 1)),
         "uint8|int64": ((0, 255, 1), (-1, 0, 255)), "int64|uint64": ((-1, 0, 5), (0, 5, 2**64 - 1)), "uint64|int64": ((0, 5, 2**64 - 1), (-1, 0, 5)),
         "int64|int32": ((0, 5, 2**32 + 5), (0, 5, -1)), "float64|float32": ((0.1, 0.5, 2.0), (0.1, 0.5, 3.0)), "int32|int64": ((5, -1, 0), (5, 2**32 + 5, 2**32 - 1))}
MIXED.update({"int64|uint64": ((-1, 0, 5, 2**62, 2**62 + 1, -2**62), (0, 5, 2**64 - 1, 2**62, 2**62 + 1, 2**64 - 2**62)),
              "uint64|int64": ((0, 5, 2**64 - 1, 2**63 - 1, 2**53 + 1, 2**63), (-1, 0, 5, 2**63 - 1, 2**53 + 1, -2**63)),
              "uint64|int32": ((0, 5, 2**64 - 1), (-1, 0, 5)), "int8|uint64": ((-1, 5, -128), (5, 2**64 - 1, 2**64 - 128)),
              "uint32|int64": ((0, 2**32 - 1, 2**31), (-1, 2**32 - 1, -2**31)), "int16|uint32": ((-1, 5, 0), (2**16 - 1, 5, 2**32 - 1))})


# case: (sizes1, pattern1, sizes2, pattern2, dtype, rot, mode)
# mode 0: unsorted; 1: arr2 presorted; 2: unsorted, default communicator
def build(case):
    s1, p1, s2, p2, dt, rot, mode = case
    if "|" in dt:
        d1, d2 = dt.split("|")
        a = np.asarray([MIXED[dt][0][i] for i in p1], dtype=d1)
        b = np.asarray([MIXED[dt][1][i] for i in p2], dtype=d2)
        if mode == 1:
            b = np.sort(b, kind="stable")
        return a, b
    both = E.values(dt, tuple(p1) + tuple(p2), rot)
    a, b = both[:len(p1)].copy(), both[len(p1):].copy()
    if mode == 1:
        b = np.sort(b, kind="stable")
    return a, b


def args(case):
    a, b = build(case)
    return len(case[0]), [(x.copy(), y.copy(), case[6]) for x, y in zip(E.split(a, case[0]), E.split(b, case[2]))]


def prog(rank, comm, mods, a, b, mode):
    ps = mods["virgo.mpi.parallel_sort"]
    a0, b0 = a.copy(), b.copy()
    if mode == 2:
        idx = ps.parallel_match(a, b)
    elif mode == 1:
        idx = ps.parallel_match(a, b, arr2_sorted=True, comm=comm)
    else:
        idx = ps.parallel_match(a, b, comm=comm)
    return np.asarray(idx), bool(E.same(a, a0) and E.same(b, b0))


def oracle(case, vals):
    a, b = build(case)
    for r, (idx, same) in enumerate(vals):
        if len(idx) != case[0][r] or idx.ndim != 1:
            return f"rank {r}: result has shape {idx.shape} for {case[0][r]} elements"
        if len(idx) and (idx.dtype.kind != "i" or idx.dtype.itemsize < 8):
            return f"index dtype {idx.dtype}"
        if not same:
            return f"rank {r}: an input array was modified"
    got = np.concatenate([v[0] for v in vals])
    a, b = a.tolist(), b.tolist()      # Python numbers of different types compare exactly
    for i, x in enumerate(a):
        present = x in b
        g = int(got[i])
        if present:
            if not (0 <= g < len(b)) or b[g] != x:
                return f"element {i} ({x}): index {g} is not an equal element of {b}"
        elif g != -1:
            return f"element {i} ({x}) is not in {b} but index is {g}"
    return None


MATCH = M.Spec("match", ("virgo.mpi.parallel_sort",), prog, args, oracle, sub=lambda c: c[6] != 2)
SPECS = [MATCH]


def joint(n1, n2):
    """Order types of the joint array, up to order inside the second array when that cannot matter"""
    return E.weak_orders(n1 + n2)


def small(nranks, pairs, sorted_p1=False):
    k = 0
    for n1, n2 in pairs:
        for t in joint(n1, n2):
            p1, p2 = t[:n1], t[n1:]
            for s1 in E.compositions(n1, nranks):
                for s2 in E.compositions(n2, nranks):
                    yield (s1, p1, s2, p2, DT[k % len(DT)], k, (0, 1, 0, 1, 2, 1)[k % 6] if k % 31 else 0)
                    k += 1


def mixed(t):
    k = 0
    for nr in (1, 2, 3):
        for dt in MIXED:
            k1, k2 = len(MIXED[dt][0]), len(MIXED[dt][1])
            for n1, n2 in ((1, 1), (2, 2), (3, 2)) if t or nr < 3 else ((1, 2),):
                for p1 in itertools.combinations_with_replacement(range(k1), n1):
                    for p2 in itertools.product(range(k2), repeat=n2) if t or k2 == 3 or n1 < 3 else itertools.combinations(range(k2), n2):
                        c1, c2 = E.compositions(n1, nr), E.compositions(n2, nr)
                        for s1, s2 in itertools.product(c1, c2) if t or n1 + n2 < 4 else ((c1[k % len(c1)], c2[k % len(c2)]), (c1[(k + 1) % len(c1)], c2[(k // 2) % len(c2)])):
                            yield (s1, p1, s2, p2, dt, 0, k % 3)
                            k += 1


def larger(thorough):
    k = 0
    for nranks in ((2, 3, 4, 5, 8) if thorough else (3, 4, 8)):
        for n1, n2 in ((20, 30), (30, 9), (7, 40), (40, 40)):
            pats2 = [tuple(range(n2)), tuple(range(n2))[::-1], (0,) * n2, tuple(i // 4 for i in range(n2)), tuple(i % 3 for i in range(n2)), tuple((i * 7) % n2 for i in range(n2))]
            pats1 = [tuple((i * 5) % (n2 + 3) for i in range(n1)), tuple(i // 2 for i in range(n1)), (0,) * n1, (1,) * n1, tuple(n2 - i % n2 for i in range(n1))]
            for p1, p2 in itertools.product(pats1, pats2):
                b1, b2 = n1 // nranks, n2 // nranks
                even1 = tuple(b1 + (i < n1 % nranks) for i in range(nranks))
                even2 = tuple(b2 + (i < n2 % nranks) for i in range(nranks))
                for s1, s2 in ((even1, even2), (even1, (n2,) + (0,) * (nranks - 1)), ((0,) * (nranks - 1) + (n1,), even2),
                               (even1, (0,) + (n2 // 2,) + (0,) * (nranks - 3) + (n2 - n2 // 2,) if nranks > 2 else even2),
                               (even1, (1,) * (nranks - 1) + (n2 - nranks + 1,))):
                    yield (s1, p1, s2, p2, ("int64", "float64", "int32", "uint64")[k % 4], k, k % 3)
                    k += 1


def main():
    chk = Check("C02", "model_checking")
    if chk.replay_requested({"": lambda c: (M.S.install(), MATCH.sim_case(c))[1]}):
        return
    t = chk.thorough
    fams = {1: [(i, j) for i in range(4) for j in range(4) if i + j <= 5],
            2: [(i, j) for i in range(4) for j in range(5) if i + j <= (5 if not t else 6)],
            3: [(i, j) for i in range(4) for j in range(5) if i + j <= (4 if not t else 5)] + [(0, 3), (3, 0)],
            4: [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1)] + ([(1, 3), (2, 2), (1, 4)] if t else [(1, 3)])}
    n = 0
    for nr, pairs in fams.items():
        cases = list(small(nr, pairs))
        n += len(cases)
        M.run_spec(chk, "checks.c02", MATCH, cases, nreal=100, family=f"small {nr} ranks",
                   nontrivial=lambda c: len(c[1]) > 0 and len(c[3]) > 0)
    cases = list(mixed(t))
    n += len(cases)
    M.run_spec(chk, "checks.c02", MATCH, cases, nreal=60, family="arrays of different types", nontrivial=lambda c: True)
    cases = list(larger(t))
    M.run_spec(chk, "checks.c02", MATCH, cases, nreal=30, family="structured larger inputs")
    n += len(cases)
    chk.assumptions = ["matching depends on values only through comparisons; non-contiguous arrays excluded; NaN is equal to nothing",
                       "with arr2_sorted the caller's promise of a global sort is kept by the driver"]
    chk.finish(rule="every joint order type of the two arrays x every division of each over ranks (sizes in bounds); non-trivial: both arrays have elements",
               extra={"states": n, "bounds": {str(k): v for k, v in fams.items()}})


if __name__ == "__main__":
    main()
