"""Enumerators of small combinatorial domains"""
import itertools
import functools
import numpy as np


@functools.lru_cache(None)
def compositions(n, k):
    """All tuples of k non-negative integers with sum n"""
    if k == 1:
        return [(n,)]
    out = []
    for i in range(n + 1):
        for rest in compositions(n - i, k - 1):
            out.append((i,) + rest)
    return out


@functools.lru_cache(None)
def weak_orders(n):
    """All order types of n elements: tuples using exactly the values 0..k-1"""
    out = []
    for t in itertools.product(range(n), repeat=n):
        m = max(t) + 1 if n else 0
        if len(set(t)) == m:
            out.append(t)
    return out if n else [()]


def split(seq, sizes):
    out, i = [], 0
    for s in sizes:
        out.append(seq[i:i + s])
        i += s
    return out


pair_t = np.dtype([("a", np.int32), ("b", np.int64)])

# Ascending, all distinct, with extremes which survive no detour through another type
VALUES = {
    "int64": np.array([-2**63, -5, -1, 0, 3, 2**53, 2**53 + 1, 2**63 - 1], dtype=np.int64),
    "uint64": np.array([0, 1, 7, 2**53, 2**53 + 1, 2**63 - 1, 2**63 + 1, 2**64 - 1], dtype=np.uint64),
    "int32": np.array([-2**31, -70000, -1, 0, 1, 2, 70000, 2**31 - 1], dtype=np.int32),
    "uint32": np.array([0, 1, 2, 3, 70000, 2**31 - 1, 2**31 + 1, 2**32 - 1], dtype=np.uint32),
    "int8": np.array([-128, -3, -1, 0, 1, 2, 5, 127], dtype=np.int8),
    "uint8": np.array([0, 1, 2, 3, 127, 128, 200, 255], dtype=np.uint8),
    "int16": np.array([-32768, -3, -1, 0, 1, 2, 5, 32767], dtype=np.int16),
    "float64": np.array([-np.inf, -1e300, -1.5, 0.0, 1.0, 1.0 + 2**-52, 1e300, np.inf], dtype=np.float64),
    "float32": np.array([-np.inf, -1e30, -1.5, 0.0, 1.0, 1.0 + 2**-23, 1e30, np.inf], dtype=np.float32),
    "pair": np.array([(-2, 5), (-1, -7), (-1, 0), (0, -1), (0, 0), (0, 2**40), (3, -1), (2**31 - 1, 0)], dtype=pair_t),
}


def nans(a, pattern, rot):
    """In some cases the greatest values of a floating point array become NaN, which numpy sorts last"""
    if a.dtype.kind == "f" and rot % 3 == 2 and len(pattern):
        a[np.asarray(pattern) == max(pattern)] = np.nan
    return a


def same(a, b):
    """Equal arrays; NaN is equal to NaN"""
    return np.array_equal(a, b, equal_nan=a.dtype.kind == b.dtype.kind == "f")


def values(dtype, pattern, rot=0):
    """Array with the order type of pattern, drawn from the table for dtype. rot moves the
    window of values used (order is preserved)"""
    tab = VALUES[dtype]
    k = (max(pattern) + 1) if len(pattern) else 0
    if k > len(tab):
        # larger patterns: plain small numbers
        return nans(np.asarray(pattern).astype(tab.dtype), pattern, rot) if tab.dtype.names is None else \
            np.array([(p // 3, p % 3) for p in pattern], dtype=tab.dtype)
    room = len(tab) - k
    # choose k of the table's values, spread differently with rot
    if k:
        combos = list(itertools.islice(itertools.combinations(range(len(tab)), k), 0, 200))
        pick = combos[(rot * 37) % len(combos)]
        a = tab[list(pick)][list(pattern)].copy() if len(pattern) else tab[:0].copy()
        if a.dtype.kind == "f" and rot % 2:
            a[1::2][a[1::2] == 0] = -0.0      # equal to 0, with other bytes
        return nans(a, pattern, rot)
    return tab[:0].copy()
