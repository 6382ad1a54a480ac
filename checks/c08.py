"""C08: group membership from lengths and offsets"""
import itertools
import numpy as np
from mc.framework import Check, use_repo
from mc import mpicheck as M, enum as E

use_repo()


# case: (groups ((offset, length), ...), group sizes per rank, particle sizes per rank, dtype, kind)
# kind: 0 no rank, 1 with rank, 2 with rank and default comm
def args(case):
    groups, gs, ps, dt, kind = case
    off = np.array([g[0] for g in groups], dtype=np.int64)
    ln = np.array([g[1] for g in groups], dtype=np.int64)
    lt, ot = {"i8": ("i8", "i8"), "u8": ("u8", "u8"), "i4u8": ("i4", "u8"), "u4": ("u4", "u4"), "i4": ("i4", "i4"), "u4i8": ("u4", "i8")}[dt]
    return len(gs), [(l.astype(lt), o.astype(ot), n, kind) for l, o, n in zip(E.split(ln, gs), E.split(off, gs), ps)]


def prog(rank, comm, mods, ln, off, n, kind):
    u = mods["virgo.mpi.util"]
    l0, o0 = ln.copy(), off.copy()
    if kind == 0:
        res = (u.group_index_from_length_and_offset(ln, off, n, comm=comm), None)
    elif kind == 1:
        res = u.group_index_from_length_and_offset(ln, off, n, return_rank=True, comm=comm)
    else:
        res = u.group_index_from_length_and_offset(ln, off, n, return_rank=True)
    return res[0], res[1], bool(np.array_equal(l0, ln) and np.array_equal(o0, off))


def oracle(case, vals):
    groups, gs, ps, dt, kind = case
    n = sum(ps)
    g, k = [-1] * n, [-1] * n
    for i, (o, l) in enumerate(groups):
        for j in range(l):
            if o + j < n:
                g[o + j], k[o + j] = i, j
    for r, v in enumerate(vals):
        if len(v[0]) != ps[r]:
            return f"rank {r}: {len(v[0])} results for {ps[r]} particles"
        if not v[2]:
            return f"rank {r}: inputs modified"
    gg = np.concatenate([v[0] for v in vals]).tolist()
    if gg != g:
        return f"group index {gg}, expected {g}"
    if kind:
        kk = np.concatenate([v[1] for v in vals]).tolist()
        if kk != k:
            return f"rank in group {kk}, expected {k}"


GRP = M.Spec("membership", ("virgo.mpi.util",), prog, args, oracle, sub=lambda c: c[4] != 2)
SPECS = [GRP]
DTS = ["i8", "u8", "i4u8", "u4", "i4", "u4i8"]


def layouts(n, ng):
    """All sequences of ng sorted, non-overlapping (possibly empty) ranges inside n particles"""
    def rec(start, left):
        if left == 0:
            yield ()
            return
        for o in range(start, n + 1):
            for l in range(0, n - o + 1):
                for rest in rec(o + l, left - 1):
                    yield ((o, l),) + rest
    return rec(0, ng)


def small(nr, nmax, gmax):
    k = 0
    for n in range(nmax + 1):
        for ng in range(gmax + 1):
            for lay in layouts(n, ng):
                for gs in E.compositions(ng, nr):
                    for ps in E.compositions(n, nr):
                        yield (lay, gs, ps, DTS[k % len(DTS)], (1, 0, 1, 2)[k % 4] if k % 5 else 1)
                        k += 1


def larger():
    k = 0
    for nr in (3, 4, 5, 8):
        for n in (24, 50):
            lays = [tuple((i * 3, 3) for i in range(n // 3)), tuple((i * 4 + 1, 2) for i in range((n - 3) // 4)), ((0, n),), ((1, n - 2),),
                    tuple((i, 1) for i in range(n)), ((0, n // 2), (n // 2, 0), (n // 2, n - n // 2)), ((0, 0), (0, 0), (5, 13), (18, 0), (20, 2)),
                    tuple((i * 5, 5 if i % 2 else 0) for i in range(n // 5)), ((n - 1, 1),), ((0, 1), (n - 1, 1))]
            for lay in lays:
                ng = len(lay)
                for gs in {tuple(ng // nr + (1 if i < ng % nr else 0) for i in range(nr)), (ng,) + (0,) * (nr - 1), (0,) * (nr - 1) + (ng,), (0, ng // 2) + (0,) * (nr - 3) + (ng - ng // 2,)}:
                    for ps in {tuple(n // nr + (1 if i < n % nr else 0) for i in range(nr)), (n,) + (0,) * (nr - 1), (0,) * (nr - 1) + (n,), (0, n // 2) + (0,) * (nr - 3) + (n - n // 2,), (1, 0) + (1,) * (nr - 3) + (n - nr + 2,)}:
                        yield (lay, gs, ps, DTS[k % len(DTS)], 1)
                        k += 1


def beyond():
    """Groups which reach beyond the last particle, and empty groups with an arbitrary in-range offset of zero"""
    for nr in (1, 2, 3):
        for n in (0, 2, 3):
            for lay in (((0, n + 2),), ((max(n - 1, 0), 4),), ((0, 1), (1, n + 5))):
                for gs in E.compositions(len(lay), nr):
                    for ps in E.compositions(n, nr):
                        yield (lay, gs, ps, "i8", 1)


def main():
    chk = Check("C08", "model_checking")
    if chk.replay_requested({"": lambda c: (M.S.install(), GRP.sim_case(c))[1]}):
        return
    t = chk.thorough
    tot = 0
    for nr, nmax, gmax in ((1, 4, 3), (2, 4, 3), (3, 4, 2)) + (((3, 3, 3), (4, 4, 2), (3, 5, 2), (2, 5, 3)) if t else ((4, 3, 2),)):
        cases = list(small(nr, nmax, gmax))
        tot += len(cases)
        M.run_spec(chk, "checks.c08", GRP, cases, nreal=120, family=f"{nr} ranks <= {nmax} particles <= {gmax} groups", nontrivial=lambda c: any(g[1] for g in c[0]))
    cases = list(larger()) 
    tot += len(cases)
    M.run_spec(chk, "checks.c08", GRP, cases, nreal=60, family="structured larger inputs")
    chk.assumptions = ["groups are sorted by offset and do not overlap, as in the catalogues this serves"]
    chk.finish(rule="every sorted non-overlapping layout x every division of groups x every division of particles; non-trivial: some group has members", extra={"states": tot})


if __name__ == "__main__":
    main()
