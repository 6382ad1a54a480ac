"""C23: depth first indexing of merger trees, main progenitors, tree and branch masses"""
import itertools
import numpy as np
from mc.framework import Check, use_repo, Violation
from mc.enum import weak_orders

use_repo()


def fail(x):
    raise Violation(x)


def forests(n, orphan):
    """Every forest on n stored halos: index of the descendant, -1 (none) or -2 (descendant not among the halos)"""
    out = []

    def go(p):
        if len(p) == n:
            for i in range(n):
                j, k = p[i], 0
                while j >= 0 and k <= n:
                    j, k = p[j], k + 1
                if k > n:
                    return
            out.append(tuple(p))
            return
        for j in range(-2 if orphan else -1, n):
            if j != len(p):
                go(p + [j])
    go([])
    return out


def levels(p):
    """Number of steps from each halo to the end of its tree"""
    out = []
    for i in range(len(p)):
        j, k = p[i], 0
        while j >= 0:
            j, k = p[j], k + 1
        out.append(k)
    return out


IDS = {
    0: lambda order: [1 + x for x in order],
    1: lambda order: [2**53 + 1 + x for x in order],
    2: lambda order: [10**12 * (x % 2) + 7 * x for x in order],
    3: lambda order: [10 - 3 * x for x in order],
}
MASSES = {0: lambda o: [1 + x for x in o], 1: lambda o: [(1, 1.25, 2, 2.125, 4, 64)[x % 6] + x // 6 for x in o], 2: lambda o: [(1e10, 1.00003e10, 2e10, 3e10, 3.5e10, 1e13)[x % 6] * (1 + x // 6) for x in o]}


def arrays(case):
    p, mass, order, ids, snapmode, mm, idt, mdt = case
    n = len(p)
    node = np.array(IDS[ids](order), dtype=idt)
    assert len(set(node.tolist())) == n
    missing = -1 if ids != 3 else 10**6
    other = 10**9 if ids != 1 else 2**53 + 400
    desc = np.array([node[j] if j >= 0 else (missing if j == -1 else other) for j in p], dtype=idt)
    m = np.array(MASSES[mm](mass), dtype=mdt)
    lev = levels(p)
    if snapmode == 0:
        snap = [20 - x for x in lev]
    elif snapmode == 1:
        snap = [60 - 3 * x - (i % 2) for i, x in enumerate(lev)]
    else:
        # trees which end at different times, all the halos of one level in one snapshot
        root = list(range(n))
        for i in range(n):
            while p[root[i]] >= 0:
                root[i] = p[root[i]]
        snap = [40 - x - 2 * (root[i] % 3) for i, x in enumerate(lev)]
    return node, desc, np.array(snap, dtype=np.int32), m


def check_depth_first(p, m, got, what):
    """Properties of the depth first index of a forest p with branch masses m"""
    n = len(p)
    df, emb, lp = [np.asarray(x) for x in got]
    if df.shape != (n,) or emb.shape != (n,) or lp.shape != (n,):
        fail(f"{what}: result shapes {df.shape} {emb.shape} {lp.shape}")
    df, emb, lp = df.tolist(), emb.tolist(), lp.tolist()
    if n == 0:
        return
    lo = min(df)
    if lo not in (0, 1) or sorted(df) != list(range(lo, lo + n)):
        fail(f"{what}: depth first index {df} does not number the halos consecutively")
    at = {d: i for i, d in enumerate(df)}
    sub = [{i} for i in range(n)]
    prog = [[] for i in range(n)]
    for i in range(n):
        if p[i] >= 0:
            prog[p[i]].append(i)
        j = p[i]
        while j >= 0:
            sub[j].add(i)
            j = p[j]
    main = {}
    for i in range(n):
        s = sub[i]
        if {at[k] for k in range(df[i], df[i] + len(s)) if k in at} != s:
            fail(f"{what}: depth first index {df}: halo {i} and its progenitors {sorted(s - {i})} are not consecutive")
        if lp[i] != df[i] + len(s) - 1:
            fail(f"{what}: last progenitor of halo {i} is {lp[i]}, its depth first index is {df[i]}, it has {len(s) - 1} progenitors")
        if prog[i]:
            first = at[df[i] + 1]
            if p[first] != i:
                fail(f"{what}: depth first index {df}: halo {i} is followed by {first}, not its progenitor")
            if m[first] != max(m[k] for k in prog[i]):
                fail(f"{what}: depth first index {df}: first progenitor of halo {i} is {first} although another has a greater branch mass, masses {m}")
            main[i] = first
            ordered = sorted(prog[i], key=lambda k: df[k])
            if any(m[a] < m[b] for a, b in zip(ordered, ordered[1:])):
                fail(f"{what}: depth first index {df}: progenitors {ordered} of halo {i} are not in descending order of branch mass {m}")
    for i in range(n):
        j = i
        while j in main:
            j = main[j]
        if emb[i] != df[j]:
            fail(f"{what}: end of main branch of halo {i} is {emb[i]}, should be {df[j]}; depth first index {df}")


def tree_case(case):
    import virgo.database.index_trees as it
    p, mass, order = case[:3]
    node, desc, snap, m = arrays(case)
    n = len(p)
    what = f"halos with descendants {p}, masses {m.tolist()} ({m.dtype}), IDs {node.tolist()}, descendant IDs {desc.tolist()}, snapshots {snap.tolist()}"
    keep = [x.copy() for x in (node, desc, snap, m)]
    prog = [[j for j in range(n) if p[j] == i] for i in range(n)]
    tree, branch = [None] * n, [None] * n
    for i in sorted(range(n), key=lambda i: -levels(p)[i]):
        tree[i] = float(m[i]) + sum(tree[j] for j in prog[i])
        branch[i] = float(m[i]) + max([branch[j] for j in prog[i]] + [0.0])
    got = it.depth_first_index(node, desc, m)
    check_depth_first(p, m.tolist(), got, what)
    ntie, main = it.find_main_progenitor(node, desc, snap, m)
    for i in range(n):
        best = [j for j in prog[i] if m[j] == max(m[k] for k in prog[i])]
        if (not prog[i] and main[i] != -1) or (prog[i] and main[i] not in node[best]):
            fail(f"{what}: main progenitor of halo {i} is {main[i]}")
        if ntie[i] != max(len(best) - 1, 0):
            fail(f"{what}: {ntie[i]} ties for the main progenitor of halo {i}")
    t = it.find_progenitor_tree_mass(node, desc, snap, m)
    if not np.allclose(np.asarray(t, dtype=float), tree, rtol=1e-6 if m.dtype.itemsize == 4 else 1e-14, atol=0):
        fail(f"{what}: tree masses {t.tolist()}, should be {tree}")
    b = it.find_progenitor_branch_mass_delucia(node, desc, snap, m)
    if not np.allclose(np.asarray(b, dtype=float), branch, rtol=1e-6 if m.dtype.itemsize == 4 else 1e-14, atol=0):
        fail(f"{what}: branch masses {b.tolist()}, should be {branch}")
    check_depth_first(p, b.tolist(), it.depth_first_index(node, desc, b), what + " by main branch mass")
    for a, k in zip((node, desc, snap, m), keep):
        if not np.array_equal(a, k):
            fail(f"{what}: input was modified to {a.tolist()}")
    return None


def shape(kind, n):
    if kind == "chain":
        return [-1] + list(range(n - 1))
    if kind == "star":
        return [-1] + [0] * (n - 1)
    if kind == "comb":
        return [-1] + [max(i - 2 - (i % 2), 0) if i > 1 else 0 for i in range(1, n)]
    if kind == "binary":
        return [-1] + [(i - 1) // 2 for i in range(1, n)]
    if kind == "chains":
        return [i - 7 if i >= 7 else -1 - i % 2 for i in range(n)]
    raise ValueError(kind)


def big_case(case):
    kind, n, mult, massmode, rest = case
    p0 = shape(kind, n)
    # storage order i -> (mult*i) mod q, by rank
    q = [(mult * i + 3) % (2 * n + 1) * n + i for i in range(n)]
    pos = sorted(range(n), key=lambda i: q[i])
    at = {x: i for i, x in enumerate(pos)}
    p = tuple(at[p0[x]] if p0[x] >= 0 else p0[x] for x in pos)
    mass = tuple({0: i % 5, 1: (i * 31) % n, 2: n - i, 3: 0}[massmode] for i in range(n))
    return tree_case((p, mass, tuple((i * 17 + 5) % n if n % 17 else i for i in range(n))) + rest)


def main():
    chk = Check("C23", "exploration")
    if chk.replay_requested({"forests": tree_case, "large": big_case}):
        return
    t = chk.thorough

    def cases():
        i = 0
        for n in range(0, 5):
            orders = list(itertools.permutations(range(n)))
            for p in forests(n, True):
                for mass in weak_orders(n):
                    for order in (orders if n < 4 or t else [orders[(i + k * 7) % len(orders)] for k in range(3)]):
                        i += 1
                        variants = itertools.product((0, 1, 2, 3), (0, 1, 2)) if n < 4 else [(i % 4, (i // 4) % 3)] if not t else [(i % 4, k) for k in range(3)]
                        for ids, sm in variants:
                            yield p, mass, order, ids, sm, (i + sm) % 3, ("i8", "i4")[(i // 12) % 2 if ids in (0, 3) else 0], ("f4", "f8", "i8")[(i // 7) % 3]
        n = 5
        orders = list(itertools.permutations(range(n)))
        wo = weak_orders(n)
        wo = wo if t else [w for w in wo if w[0] <= 1 and len(set(w)) in (3, 5)][::2]
        for p in forests(n, False):
            for mass in wo:
                i += 1
                yield p, mass, orders[(i * 37) % 120], i % 4, (i // 4) % 3, i % 3, "i8", ("f4", "f8")[i % 2]
        if t:
            orders = list(itertools.permutations(range(6)))
            for p in forests(6, False):
                for k in range(12):
                    i += 1
                    yield p, tuple(orders[(i * 101 + k * 61) % 720]), orders[(i * 37) % 720], i % 4, (i // 4) % 3, i % 3, "i8", ("f4", "f8")[i % 2]

    def nontrivial(c):
        return any(x >= 0 for x in c[0])
    chk.run_cases("forests", list(cases()), tree_case, nontrivial=nontrivial)
    big = []
    for kind in ("chain", "star", "comb", "binary", "chains"):
        for n in (7, 20, 31, 64, 150) + ((400, 1100) if t else ()):
            for mult in (1, 2, 5, 11):
                for mm in range(4):
                    k = len(big)
                    big.append((kind, n, mult, mm, ((0, 1)[k % 2], k % 2 if kind == "chain" and n < 10 else 0, 0, "i8", "f8")))
    chk.run_cases("large", big, big_case)
    chk.assumptions = ["positive masses, descendants in later snapshots, distinct halo IDs; progenitors of equal branch mass may come in any order"]
    chk.finish(rule="every forest of up to 4 stored halos (in every storage order), descendant missing or not among the halos, every weak ordering of masses (and every ordering of IDs up to 3 halos, thorough 4), 4 kinds of IDs, 3 kinds of snapshot numbering; every forest of 5 halos with a third of the strict and weak mass orderings "
                    "(thorough: all; and every forest of 6 halos with 12 mass orderings); chains, stars, combs and binary trees of up to 150 (thorough 1100) halos; non-trivial: some halo has a progenitor")


if __name__ == "__main__":
    main()
