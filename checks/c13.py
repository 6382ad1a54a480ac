"""C13: serial match"""
import itertools
import numpy as np
from mc.framework import Check, use_repo
from mc import enum as E

use_repo()
DT = ["int64", "uint64", "float64", "int32", ">i4", "uint8", ">f8", "float32", "S3", "int16", ">u8", "U2"]
MIXED = {"float64|int64": ((0.5, 1.0, 2.0), (0, 1, 2)), "int64|float64": ((0, 1, 2), (0.5, 1.0, -0.5)), "int64|uint8": ((-1, 0, 256), (0, 255, 1)),
         "uint8|int64": ((0, 255, 1), (-1, 0, 255)), "int64|uint64": ((-1, 0, 5), (0, 5, 2**64 - 1)), "int64|int32": ((0, 5, 2**32 + 5), (0, 5, -1)),
         ">i4|int64": ((0, 5, -1), (0, 5, 2**32 + 5)), "int64|>i4": ((0, 5, 2**24), (0, 5, 1)), "float64|float32": ((0.1, 0.5, 2.0), (0.1, 0.5, 3.0)), ">f4|>f8": ((0.5, 1.0, 2.0), (0.5, 2.0, 0.1))}
MIXED.update({"int64|uint64": ((-1, 0, 5, 2**62, 2**62 + 1, -2**62), (0, 5, 2**64 - 1, 2**62, 2**62 + 1, 2**64 - 2**62)),
              "uint64|int64": ((0, 5, 2**64 - 1, 2**63 - 1, 2**53 + 1, 2**63), (-1, 0, 5, 2**63 - 1, 2**53 + 1, -2**63)),
              "uint64|int32": ((0, 5, 2**64 - 1), (-1, 0, 5)), "int8|uint64": ((-1, 5, -128), (5, 2**64 - 1, 2**64 - 128)),
              "uint32|int64": ((0, 2**32 - 1, 2**31), (-1, 2**32 - 1, -2**31)), "int16|uint32": ((-1, 5, 0), (2**16 - 1, 5, 2**32 - 1))})


def build(case):
    """(pattern1, pattern2, dtype, rot, mode)"""
    p1, p2, dt, rot, mode = case
    if "|" in dt:
        d1, d2 = dt.split("|")
        return np.asarray([MIXED[dt][0][i] for i in p1], dtype=d1), np.asarray([MIXED[dt][1][i] for i in p2], dtype=d2)
    if dt in ("S3", "U2"):
        tab = np.asarray([f"{chr(97 + i // 7)}{i % 7}" for i in range(max((0,) + p1 + p2) + 1)], dtype=dt)
        return tab[list(p1)], tab[list(p2)]
    base = np.dtype(dt).newbyteorder("=").name
    both = E.values(base, tuple(p1) + tuple(p2), rot).astype(dt)
    return both[:len(p1)].copy(), both[len(p1):].copy()


def case_fn(case):
    from virgo.util.match import match
    a, b = build(case)
    mode = case[4]
    kw = {}
    if mode == 1:
        b = np.sort(b)
        kw["arr2_sorted"] = True
    elif mode == 2:
        kw["arr2_index"] = np.argsort(b, kind="stable")
    elif mode == 3:
        o = np.argsort(b, kind="stable")      # another valid index: ties reversed
        kw["arr2_index"] = np.lexsort((-np.arange(len(b)), b)).astype(np.int64)
    elif mode == 4:
        a, b = a[::-1][::-1], np.repeat(b, 2)[::2]   # not contiguous
    a0, b0 = a.copy(), b.copy()
    kw0 = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    r = match(a, b, **kw)
    if not isinstance(r, np.ndarray) or r.shape != a.shape or (len(a) and r.dtype.kind != "i"):
        return f"result {r!r} for {len(a)} elements"
    if not (E.same(a, a0) and E.same(b, b0)) or any(not np.array_equal(kw[k], kw0[k]) for k in kw):
        return "an input was modified"
    la, lb = a.tolist(), b.tolist()
    for i, x in enumerate(la):
        g = int(r[i])
        if x in lb:
            if not 0 <= g < len(lb) or lb[g] != x:
                return f"element {i} ({x}) of {la}: position {g} of {lb} is not equal to it"
        elif g != -1:
            return f"element {i} ({x}) of {la} is not in {lb} but the position is {g}"
    return {"outcome": r.tobytes()}


def cases(t):
    k = 0
    for n1 in range(4):
        for n2 in range(6 if t else 5):
            for p in E.weak_orders(n1 + n2):
                yield (p[:n1], p[n1:], DT[k % len(DT)], k, (k // 3) % 5)
                k += 1
    for dt in MIXED:
        for n1, n2 in ((1, 1), (2, 2), (3, 3), (3, 2)):
            k1, k2 = len(MIXED[dt][0]), len(MIXED[dt][1])
            for p1 in itertools.product(range(k1), repeat=n1) if k1 == 3 or n1 < 3 else itertools.combinations(range(k1), n1):
                for p2 in itertools.product(range(k2), repeat=n2) if k2 == 3 or n2 < 3 else itertools.permutations(range(k2), n2):
                    yield (p1, p2, dt, 0, k % 5)
                    k += 1
    for n1, n2 in ((50, 40), (17, 100), (100, 17), (33, 33)):
        for f in (lambda i: i, lambda i: i // 3, lambda i: (i * 7) % n2, lambda i: 0, lambda i: n2 - i % n2, lambda i: (i * i) % 11):
            for g in (lambda i: i, lambda i: 2 * i, lambda i: 0, lambda i: 1, lambda i: n2 + 5 - i % 9):
                for mode in range(5):
                    yield (tuple(g(i) for i in range(n1)), tuple(f(i) for i in range(n2)), ("int64", ">i4", "float64", "S3", "int32")[k % 5], k, mode)
                    k += 1


def main():
    chk = Check("C13", "exploration")
    if chk.replay_requested({"": case_fn}):
        return
    cs = list(cases(chk.thorough))
    chk.run_cases("pairs of arrays", cs, case_fn, nontrivial=lambda c: len(c[0]) > 0 and len(c[1]) > 0)
    chk.assumptions = ["NaN is equal to nothing; a supplied sorting index does sort the second array"]
    chk.finish(rule="every joint order type of two arrays of up to 3 and 4 (thorough: 5) elements, all pairs of values of two different types, and structured longer arrays; types, byte orders and options rotate; non-trivial: both arrays have elements",
               extra={"states": len(cs)})


if __name__ == "__main__":
    main()
