"""C15: Peano-Hilbert keys"""
import itertools
import numpy as np
from mc.framework import Check, use_repo, Violation
from mc import peano_ref

use_repo()


def fail(x):
    raise Violation(x)


def grid_case(case):
    """all cells of one slab of the grid against the reference; done for every x: bijection, inverse, continuity"""
    from virgo.util import peano as P
    bits, what, part, nparts = case
    n = 1 << bits
    if what == "keys":
        c = np.arange(n**3 * part // nparts, n**3 * (part + 1) // nparts)
        x, y, z = c // (n * n), (c // n) % n, c % n
        ref = peano_ref.keys(x, y, z, bits)
        x, y, z = (a.astype(np.int32 if part % 2 else np.int64) for a in (x, y, z))
        k = P.peano_hilbert_keys(x, y, z, bits)
        if k.dtype != np.int64 or not np.array_equal(k, ref):
            i = np.flatnonzero(k != ref)[0]
            fail(f"{bits} bits: key of cell {x[i], y[i], z[i]} is {k[i]}, Gadget has {ref[i]}")
        if bits > 1:
            up = P.peano_hilbert_keys(x >> 1, y >> 1, z >> 1, bits - 1)
            if not np.array_equal(up, k >> 3):
                fail(f"{bits} bits: sub-cells of a cell of the coarser grid are not contiguous")
        bx, by, bz = P.peano_hilbert_key_inverses(k, bits)
        if not (np.array_equal(bx, x) and np.array_equal(by, y) and np.array_equal(bz, z)):
            fail(f"{bits} bits: the inverse does not give back the cells")
        return {"counts": {"states": len(c), "nontrivial": len(c)}}
    # along the curve
    lo, hi = n**3 * part // nparts, min(n**3, n**3 * (part + 1) // nparts + 1)
    k = np.arange(lo, hi, dtype=np.int64)
    x, y, z = P.peano_hilbert_key_inverses(k, bits)
    for a in (x, y, z):
        if a.shape != k.shape or a.dtype.kind not in "iu" or (len(a) and (a.min() < 0 or a.max() >= n)):
            fail(f"{bits} bits: inverse outside of the grid")
    step = np.abs(np.diff(x.astype(int))) + np.abs(np.diff(y.astype(int))) + np.abs(np.diff(z.astype(int)))
    if not np.all(step == 1):
        i = np.flatnonzero(step != 1)[0]
        fail(f"{bits} bits: keys {k[i]} and {k[i] + 1} are of cells that share no face")
    if not np.array_equal(P.peano_hilbert_keys(x, y, z, bits), k):
        fail(f"{bits} bits: key of the inverse of a key is another key")
    return {"counts": {"states": len(k), "nontrivial": len(k)}}


def deep_case(case):
    """all windows of 3 levels at every depth of deep grids, between all of these fillings"""
    from virgo.util import peano as P
    bits, pos = case
    w = min(3, bits)
    pre, post = pos, bits - pos - w
    F = [0, 7, 1, 2, 4, 3, 5, 6]
    keys = []
    for win in range(8**w):
        for f in F:
            for g in (0, 7, 5):
                d = 0
                for i in range(pre):
                    d = d * 8 + (f if i % 2 else (f * 3 + g) % 8)
                d = d * 8**w + win
                for i in range(post):
                    d = d * 8 + (g if g != 5 else (5 * i + f) % 8)
                keys.append(d)
    k = np.unique(np.asarray(keys, dtype=np.int64))
    x, y, z = P.peano_hilbert_key_inverses(k, bits)
    if not np.array_equal(peano_ref.keys(x, y, z, bits), k):
        fail(f"{bits} bits: the inverse of a key does not have this key in Gadget")
    if not np.array_equal(P.peano_hilbert_keys(x, y, z, bits), k):
        fail(f"{bits} bits: key of the inverse of a key is another key")
    k1 = k[k < 8**bits - 1]
    a = np.asarray(P.peano_hilbert_key_inverses(k1, bits)).astype(int)
    b = np.asarray(P.peano_hilbert_key_inverses(k1 + 1, bits)).astype(int)
    if not np.all(np.abs(a - b).sum(axis=0) == 1):
        fail(f"{bits} bits: consecutive keys of cells that share no face")
    # the same digits as cells: digit = bits of x, y, z
    x, y, z = (sum((((k >> (3 * i + s)) & 1) << i for i in range(bits)), np.zeros(len(k), dtype=np.int64)) for s in (2, 1, 0))
    q = P.peano_hilbert_keys(x, y, z, bits)
    if not np.array_equal(q, peano_ref.keys(x, y, z, bits)):
        fail(f"{bits} bits: keys differ from those of Gadget")
    back = P.peano_hilbert_key_inverses(q, bits)
    if not all(np.array_equal(u, v) for u, v in zip(back, (x, y, z))):
        fail(f"{bits} bits: inverse does not give back the cell")
    return {"counts": {"states": 2 * len(k), "nontrivial": 2 * len(k)}}


def shape_case(case):
    """scalars, lists and arrays of any shape are converted alike"""
    from virgo.util import peano as P
    bits, kind = case
    n = 1 << bits
    c = list(itertools.product(range(n), repeat=3))
    ref = peano_ref.keys(*np.asarray(c).T, bits)
    if kind == "scalar":
        for p, r in zip(c, ref):
            for f in (int, np.int32, np.int64):
                k = P.peano_hilbert_keys_block(*map(f, p), bits)
                if np.shape(k) != () or int(k) != r:
                    fail(f"key of the single cell {p} is {k}, not {r}")
                b = P.peano_hilbert_key_inverses_block(f(k), bits)
                if tuple(int(v) for v in b) != p:
                    fail(f"inverse of the single key {k} is {b}, not {p}")
    else:
        a = np.asarray(c).T
        if kind == "list":
            k = P.peano_hilbert_keys_block(a[0].tolist(), a[1].tolist(), a[2].tolist(), bits)
            b = P.peano_hilbert_key_inverses_block(ref.tolist(), bits)
            ok = np.array_equal(k, ref) and all(np.array_equal(u, v) for u, v in zip(b, a))
        else:
            sh = (n * n, n) if kind == "2d" else (n, n, n)
            a0 = a.copy()
            k = P.peano_hilbert_keys_block(a[0].reshape(sh), a[1].reshape(sh), a[2].reshape(sh), bits)
            r0 = ref.copy().reshape(sh)
            b = P.peano_hilbert_key_inverses_block(r0, bits)
            ok = np.array_equal(k, ref.reshape(sh)) and all(np.array_equal(u, v.reshape(sh)) for u, v in zip(b, a))
            if not np.array_equal(a, a0) or not np.array_equal(r0.ravel(), ref):
                fail("an input was modified")
        if not ok:
            fail(f"{kind}: keys or inverses differ from those of the single cells")
    return {"counts": {"states": len(c), "nontrivial": len(c)}}


def length_case(case):
    """results do not depend on how many are converted in one call"""
    from virgo.util import peano as P
    n, bits = case
    m = (1 << bits)
    i = np.arange(n, dtype=np.int64)
    x, y, z = (i * 7919 + 3) % m, (i * 104729 + i // 5) % m, (i * 31 + i // 7) % m
    ref = peano_ref.keys(x, y, z, bits)
    k = P.peano_hilbert_keys(x, y, z, bits)
    if k.shape != ref.shape or not np.array_equal(k, ref):
        fail(f"wrong keys in a call with {n} cells, first at {np.flatnonzero(k != ref)[:3]}")
    b = P.peano_hilbert_key_inverses(ref, bits)
    if not all(np.array_equal(u, v) for u, v in zip(b, (x, y, z))):
        fail(f"wrong inverses in a call with {n} keys")
    pos = (np.stack([x, y, z], axis=1) + 0.5) * (100.0 / m)
    for p in (pos, pos.astype(np.float32) if bits < 15 else pos, np.asfortranarray(pos)):
        k = P.peano_hilbert_keys_from_coords(p, 100.0, bits)
        if k.shape != ref.shape or not np.array_equal(k, ref):
            fail(f"wrong keys in a call with {n} positions, first at {np.flatnonzero(k != ref)[:3]}")
    return {"counts": {"states": n, "nontrivial": n}}


def coord_case(case):
    """the cell that contains a position"""
    from virgo.util import peano as P
    bits, box, dt = case
    n = 1 << bits
    h = box / n
    pow2 = np.log2(box) == round(np.log2(box))
    cells = np.arange(n) if n <= 8 else np.asarray([0, 1, n // 3, n // 2 - 1, n // 2, n - 2, n - 1])
    one = []          # (coordinate, cell)
    for c in cells:
        fr = [0.02, 0.5, 0.98] if bits < 15 else [0.5]
        for f in fr:
            one.append(((c + f) * h, c))
        if pow2:      # exact arithmetic: also the edges of the cell
            one.append((c * h, c))
            one.append((float(np.nextafter(np.dtype(dt).type((c + 1) * h), np.dtype(dt).type(0))), c))
    one.append((-0.5 * h, n - 1))             # periodic
    one.append(((n + 0.5) * h, 0))
    if pow2:
        one.append((box, 0))
    if len(one) ** 3 > 60000:
        trip = [(a, b, c) for a in one for b in one[:: max(1, len(one) // 6)] for c in one[1:: max(1, len(one) // 6)]]
        trip += [(b, a, c) for a in one for b in one[2:: max(1, len(one) // 6)] for c in one[1:: max(1, len(one) // 6)]]
        trip += [(b, c, a) for a in one for b in one[2:: max(1, len(one) // 6)] for c in one[1:: max(1, len(one) // 6)]]
    else:
        trip = list(itertools.product(one, repeat=3))
    pos = np.asarray([[v[0] for v in t] for t in trip], dtype=dt)
    cell = np.asarray([[v[1] for v in t] for t in trip])
    ref = peano_ref.keys(*cell.T, bits)
    p0 = pos.copy()
    for b in (box, np.float64(box), np.float32(box) if np.float32(box) == box else box, int(box) if box == int(box) else box):
        k = P.peano_hilbert_keys_from_coords(pos, b, bits)
        if not np.array_equal(k, ref):
            i = np.flatnonzero(k != ref)[0]
            fail(f"position {pos[i].tolist()} in a box of {box} with {bits} bits: key {k[i]}, its cell {cell[i].tolist()} has key {ref[i]}")
    if not np.array_equal(pos, p0):
        fail("the positions were modified")
    return {"counts": {"states": len(trip), "nontrivial": len(trip)}}


def main():
    chk = Check("C15", "exploration")
    if chk.replay_requested({"all cells": grid_case, "deep": deep_case, "shapes": shape_case, "number": length_case, "cells of": coord_case}):
        return
    t = chk.thorough
    g = []
    for bits in range(1, (10 if t else 8)):
        npart = max(1, 8**bits // 100003)
        g += [(bits, w, i, npart) for w in ("keys", "curve") for i in range(npart)]
    chk.run_cases("all cells", g, grid_case)
    chk.run_cases("deep grids", [(b, p) for b in range(1, 22) for p in range(0, max(1, b - 2))], deep_case)
    chk.run_cases("shapes of the input", [(b, k) for b in (1, 2, 3) for k in ("scalar", "list", "2d", "3d")], shape_case)
    ns = [0, 1, 2, 7, 100, 4096, 9999, 10000, 10001, 19999, 20000, 20001, 30000, 65536] + ([100000, 131072, 1000001] if t else [])
    chk.run_cases("number of cells in a call", [(n, b) for n in ns for b in (2, 10, 20)], length_case)
    chk.run_cases("cells of positions", [(b, box, dt) for b in list(range(1, 11)) + [14, 20] for box in (1.0, 64.0, 100.0, 0.1, 62.5, 3000.0, 0.5)
                                         for dt in ("float64", "float32") if not (dt == "float32" and b > 14)], coord_case)
    chk.assumptions = ["up to 21 bits (63 bit keys); positions at least 2% of a cell away from its edges, except where the arithmetic is exact (box sizes which are powers of two)",
                       "positions outside of the box are wrapped periodically"]
    chk.finish(rule="every cell and every key for 1 to 7 (thorough: 9) bits; for 1 to 21 bits every window of three levels at every depth between 24 fillings of the other levels; call sizes around the block sizes; positions inside and on edges of cells; every case is non-trivial")


if __name__ == "__main__":
    main()
