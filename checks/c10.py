"""C10: halo matching"""
import itertools
import numpy as np
from mc.framework import Check, use_repo
from mc import mpicheck as M, enum as E

use_repo()


# match case: (ids1 tuple, grnr1, sizes1, ids2, grnr2, sizes2, halo sizes per rank, dtype)
def args(case):
    ids1, g1, s1, ids2, g2, s2, hs, dt = case
    a1, b1 = np.asarray(ids1, dtype=dt[0]), np.asarray(g1, dtype=dt[1])
    a2, b2 = np.asarray(ids2, dtype=dt[0]), np.asarray(g2, dtype=dt[-1])
    return len(hs), [tuple(x.copy() for x in t[:4]) + (t[4],) for t in zip(E.split(b1, s1), E.split(a1, s1), E.split(b2, s2), E.split(a2, s2), hs)]


def prog(rank, comm, mods, g1, i1, g2, i2, nh):
    m = mods["virgo.mpi.merger_tree"]
    before = [x.copy() for x in (g1, i1, g2, i2)]
    out = m.match_halos(g1, i1, g2, i2, nh, comm=comm)
    return np.asarray(out), bool(all(np.array_equal(x, y) for x, y in zip(before, (g1, i1, g2, i2))))


def oracle(case, vals):
    ids1, g1, s1, ids2, g2, s2, hs, dt = case
    at2 = dict(zip(ids2, g2))
    n = sum(hs)
    want = [-1] * n
    for h in set(g1):
        cnt = {}
        for i, g in zip(ids1, g1):
            if g == h:
                k = at2.get(i, -1)
                if k >= 0:
                    cnt[k] = cnt.get(k, 0) + 1
        if h >= 0 and cnt:
            want[h] = min(cnt, key=lambda k: (-cnt[k], k))
    for r, v in enumerate(vals):
        if len(v[0]) != hs[r]:
            return f"rank {r}: {len(v[0])} results, asked for {hs[r]}"
        if not v[1]:
            return f"rank {r}: inputs modified"
    got = np.concatenate([v[0] for v in vals]).tolist()
    if got != want:
        bad = [i for i in range(n) if got[i] != want[i]][:10]
        return f"matches {[got[i] for i in bad]} for halos {bad}, expected {[want[i] for i in bad]}"


MATCH = M.Spec("match_halos", ("virgo.mpi.merger_tree",), prog, args, oracle, sub=True)


# consistency case: ("c", match12, sizes1, match21, sizes2, dtype)
def c_args(case):
    _, m12, s1, m21, s2, dt = case
    return len(s1), list(zip([x.copy() for x in E.split(np.asarray(m12, dtype=dt), s1)], [x.copy() for x in E.split(np.asarray(m21, dtype=dt), s2)]))


def c_prog(rank, comm, mods, a, b):
    return np.asarray(mods["virgo.mpi.merger_tree"].consistent_match(a, b, comm=comm))


def c_oracle(case, vals):
    _, m12, s1, m21, s2, dt = case
    want = [1 if m >= 0 and m21[m] == i else 0 for i, m in enumerate(m12)]
    if [len(v) for v in vals] != list(s1):
        return f"result divided as {[len(v) for v in vals]}, expected {s1}"
    got = np.concatenate(vals).tolist()
    if got != want:
        return f"flags {got}, expected {want}"


CONS = M.Spec("consistent", ("virgo.mpi.merger_tree",), c_prog, c_args, c_oracle, sub=True)
SPECS = [MATCH, CONS]
DT = [("i8", "i4"), ("u8", "i4"), ("i8", "i8"), ("i4", "i4"), ("u8", "i8")]


def even(n, k):
    return tuple(n // k + (1 if i < n % k else 0) for i in range(k))


def cases_match(t):
    k = 0

    def spreads(n, nr):
        return E.compositions(n, nr)
    # all memberships of up to np particles in up to 2 (first) and 3 (second) halos; partition by rotation over all divisions
    for npart, h1, h2, nrs in ((1, 2, 1, (1, 2, 3)), (2, 2, 2, (1, 2, 3)), (3, 2, 2, (2, 3)), (4, 2, 2, (3,)), (4, 1, 3, (2,))) + (((4, 2, 2, (2, 4)), (5, 2, 2, (2, 3)), (4, 3, 2, (2, 4))) if t else ()):
        for g1 in itertools.product(range(-1, h1), repeat=npart):
            for g2 in itertools.product(range(-1, h2), repeat=npart):
                for nr in nrs:
                    s = E.compositions(npart, nr)
                    hh = E.compositions(h1 + (k % 3 == 0), nr)
                    perm = [tuple(range(npart)), tuple(reversed(range(npart))), tuple((i + 1) % npart for i in range(npart))][k % 3]
                    ids = tuple((10 + 3 * i) for i in range(npart))
                    ids2 = tuple(ids[p] for p in perm)
                    gg2 = tuple(g2[p] for p in perm)
                    yield (ids, g1, s[k % len(s)], ids2, gg2, s[(k // 2 + 1) % len(s)], hh[(k // 3) % len(hh)], DT[k % len(DT)])
                    k += 1
    # all divisions for a few fixed memberships, with particles missing at either time
    fixed = [((1, 2, 3), (0, 0, 1), (3, 1, 2), (1, 0, 1)), ((1, 2, 3), (0, 1, 1), (2, 9, 3), (0, 0, 0)), ((5, 7, 6), (1, 1, 1), (6, 5), (1, 0)),
             ((4, 2, 8), (2, 0, 2), (8, 4, 2), (0, 1, -1)), ((1, 2), (-1, 0), (2, 1, 3), (0, 0, 5)), ((3, 1), (0, 1), (), ())]
    for nr in (2, 3):
        for ids1, g1, ids2, g2 in fixed:
            for s1 in E.compositions(len(ids1), nr):
                for s2 in E.compositions(len(ids2), nr):
                    for nh in (3, 4):
                        for hs in E.compositions(nh, nr):
                            yield (ids1, g1, s1, ids2, g2, s2, hs, DT[k % len(DT)])
                            k += 1
    # larger: ties, many halos per rank
    for nr in (3, 4, 8):
        for nh in (2, 7, 12):
            n = 30
            ids1 = tuple((i * 7) % 31 for i in range(n))
            ids2 = tuple((i * 11) % 31 for i in range(n))
            for f in (lambda i: i % (nh + 1) - 1, lambda i: i * nh // n, lambda i: nh - 1, lambda i: (i * i) % nh):
                for g in (lambda i: i % 3, lambda i: (i // 2) % 5 - 1, lambda i: 4 - i % 5, lambda i: 0):
                    g1 = tuple(f(i) for i in ids1)
                    g1 = tuple(min(x, nh - 1) for x in g1)
                    g2 = tuple(g(i) for i in ids2)
                    for hs in (even(nh, nr), (nh,) + (0,) * (nr - 1), (0,) * (nr - 1) + (nh,)):
                        yield (ids1, g1, even(n, nr), ids2, g2, even(n, nr)[::-1], hs, DT[k % len(DT)])
                        k += 1
    # numbers of halos and particles of any size which fits their type, types which differ
    big = {"i4": 2**31 - 1, "i8": 2**63 - 1, "u8": 2**64 - 1, "u4": 2**32 - 1, "i2": 2**15 - 1}
    for nr in (1, 2, 3):
        for ti, t1, t2 in itertools.product(("i8", "u8", "i4", "u4"), ("i4", "i8", "i2"), ("i4", "i8", "i2")):
            for nh in (3, 30000):
                for steps in ((0, 0, 1, 1, 2, 2), (0, 1, 2, 0, 1, 2), (2, 2, 0, 1, 0, 0)):
                    g1 = [nh - 1, 1, nh - 1, -1, 0, nh - 2, nh - 2, nh - 1]
                    top = big[t2]
                    val = [top - 1, top // 3 + 1, top]
                    g2 = [val[i] for i in steps] + [0, -1]
                    ids1 = tuple(big[ti] - i * (big[ti] // 9) for i in range(8))
                    ids2 = tuple(ids1[(i * 3 + k) % 8] for i in range(8))
                    where = dict(zip(ids1, g2))
                    hh = (even(nh, nr), (0,) * (nr - 1) + (nh,), (nh - 1,) + (0,) * (nr - 2) + (1,) if nr > 1 else (nh,))[k % 3]
                    yield (ids1, tuple(g1), even(8, nr), ids2, tuple(where[i] for i in ids2), even(8, nr)[::-1], hh, (ti, t1, t2))
                    k += 1


def cases_cons(t):
    k = 0
    for n1 in range(4):
        for n2 in range(4):
            for m12 in itertools.product(range(-1, n2), repeat=n1):
                for m21 in itertools.product(range(-1, n1), repeat=n2):
                    for nr in (1, 2, 3):
                        s1, s2 = E.compositions(n1, nr), E.compositions(n2, nr)
                        if n1 + n2 <= 3:
                            for a in s1:
                                for b in s2:
                                    yield ("c", m12, a, m21, b, ("i8", "i4")[k % 2])
                                    k += 1
                        else:
                            yield ("c", m12, s1[k % len(s1)], m21, s2[(k // 3) % len(s2)], ("i8", "i4")[k % 2])
                            k += 1


def main():
    chk = Check("C10", "model_checking")
    if chk.replay_requested({"match_halos": lambda c: (M.S.install(), MATCH.sim_case(c))[1], "consistent": lambda c: (M.S.install(), CONS.sim_case(c))[1]}):
        return
    mc, cc = list(cases_match(chk.thorough)), list(cases_cons(chk.thorough))
    M.run_spec(chk, "checks.c10", MATCH, mc, nreal=120, nontrivial=lambda c: any(g >= 0 for g in c[1]) and any(g >= 0 for g in c[4]))
    M.run_spec(chk, "checks.c10", CONS, cc, nreal=120, nontrivial=lambda c: any(m >= 0 for m in c[1]))
    chk.assumptions = ["particle IDs are unique within each catalogue", "group numbers are below the number of halos asked for"]
    chk.finish(rule="every membership of up to 4 particles (divisions rotate), every division for fixed memberships, structured larger inputs, numbers up to the largest of their type; non-trivial: both catalogues have members", extra={"states": len(mc) + len(cc)})


if __name__ == "__main__":
    main()
