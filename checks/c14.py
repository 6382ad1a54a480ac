"""C14: ranges.assign_ranges and ranges.sum_ranges"""
import itertools
import numpy as np
from mc.framework import Check, use_repo
from mc import enum as E

use_repo()
DT = ["int64", "float64", "int32", "float32", "uint64", "uint8", "complex128"]
ODT = ["int64", "int32", "uint64", "uint32", "list"]
TRAIL = [(), (2,), (2, 2), (0,)]


def layout(parts):
    """alternating gaps and lengths -> offsets, lengths, n"""
    off, ln, p = [], [], 0
    for i, k in enumerate(parts):
        if i % 2:
            off.append(p)
            ln.append(k)
        p += k
    return off, ln, p


def idx(a, odt):
    return list(a) if odt == "list" else np.asarray(a, dtype=odt)


def data(n, trail, dt, k):
    m = n * int(np.prod(trail, dtype=int))
    a = np.asarray([1 + (i * 7 + k) % 13 for i in range(m)]).astype(dt).reshape((n,) + trail)
    return a * (1 + 2j) if dt == "complex128" else a


def assign_case(case):
    from virgo.util.ranges import assign_ranges
    parts, dt, odt, trail, k = case
    off, ln, n = layout(parts)
    a = data(n, trail, dt, k)
    v = (data(len(off), trail, dt, k + 5) + 50).astype(dt)
    exp = a.copy()
    for o, l, x in zip(off, ln, v):
        exp[o:o + l] = x
    o_, l_, v_ = idx(off, odt), idx(ln, odt), (v.tolist() if odt == "list" and len(off) else v.copy())
    r = assign_ranges(a, o_, l_, v_)
    if a.dtype != np.dtype(dt) or a.shape != exp.shape or not np.array_equal(a, exp):
        return f"offsets {off} lengths {ln} values {v.tolist()}: got {a.tolist()}, expected {exp.tolist()}"
    if list(o_) != off or list(l_) != ln or not np.array_equal(v_, v):
        return "an input was modified"
    return {"outcome": a.tobytes()}


def bad_case(case):
    """overlapping or unsorted ranges are refused"""
    from virgo.util.ranges import assign_ranges, sum_ranges
    n, ranges, odt, which = case
    off, ln = [r[0] for r in ranges], [r[1] for r in ranges]
    a = np.arange(n) + 1
    a0 = a.copy()
    try:
        if which == "assign":
            assign_ranges(a, idx(off, odt), idx(ln, odt), np.arange(len(off)) + 100)
        else:
            r = sum_ranges(a, idx(off, odt), idx(ln, odt))
    except ValueError:
        if not np.array_equal(a, a0):
            return "refused, but the array was modified"
        return {"outcome": "refused"}
    return f"{which}: ranges at {off} of lengths {ln} overlap or are out of order, and were accepted"


def sum_case(case):
    from virgo.util.ranges import sum_ranges
    parts, dt, odt, trail, opts, k = case
    rdt, weighted, normalize = opts
    off, ln, n = layout(parts)
    a = data(n, trail, dt, k)
    a0 = a.copy()
    out_dt = np.dtype(rdt or dt)
    w = np.asarray([(1, 2, 4, 8, 0.5, 16)[(i + k) % 6] for i in range(n)]).astype("float32" if k % 2 else "float64")
    if out_dt.kind not in "fc":
        w = np.maximum(w, 1).astype("int32")
    kw = {}
    if rdt:
        kw["dtype"] = rdt
    if weighted:
        kw["weight"] = w.copy()
    if normalize:
        kw["normalize"] = True
    r = sum_ranges(a.tolist() if (k % 11 == 0 and dt in ("int64", "float64") and a.size) else a, idx(off, odt), idx(ln, odt), **kw)
    exp = []
    for o, l in zip(off, ln):
        s = np.zeros(trail, dtype="complex128")
        tot = 0
        for i in range(o, o + l):
            s = s + a0[i].astype("complex128") * (float(w[i]) if weighted else 1)
            tot += float(w[i]) if weighted else 1
        if normalize and l:
            s = s / tot
        exp.append(s)
    exp = np.asarray(exp, dtype="complex128").reshape((len(off),) + trail)
    if not isinstance(r, np.ndarray) or r.dtype != out_dt or r.shape != exp.shape:
        return f"result of type {getattr(r, 'dtype', None)} and shape {getattr(r, 'shape', None)}, expected {out_dt} {exp.shape}"
    if not np.array_equal(a, a0) or (weighted and not np.array_equal(kw["weight"], w)):
        return "an input was modified"
    e = exp if out_dt.kind == "c" else exp.real
    if normalize:
        ok = np.allclose(r, e, rtol=1e-5 if out_dt == np.float32 else 1e-12, atol=0)
    elif out_dt == np.uint8:
        ok = np.array_equal(r, np.mod(e, 256).astype("uint8"))
    else:
        ok = np.array_equal(r, e)
    if not ok:
        return f"{a0.tolist()} offsets {off} lengths {ln} weights {w.tolist() if weighted else None}: got {r.tolist()}, expected {e.tolist()}"
    return {"outcome": r.tobytes()}


def wide_case(case):
    """Values whose sum fits the requested type but not that of the input"""
    from virgo.util.ranges import sum_ranges
    parts, dt, rdt, weighted, normalize, k = case
    off, ln, n = layout(parts)
    big = {"float32": 2.0 ** 24, "int64": 2.0 ** 62, "int32": 2.0 ** 31 - 2 ** 10, "uint8": 255, "uint64": 2.0 ** 63}[dt]
    a = np.asarray([big if (i + k) % 3 == 0 else 1 + (i + k) % 2 for i in range(n)]).astype(dt)
    if rdt == "float64" and dt in ("int64", "uint64"):
        a = np.asarray([big] * n).astype(dt)
    w = np.asarray([2.0 ** 24 if (i + k) % 4 == 1 else 1 for i in range(n)]).astype(("float32", "int32")[k % 2])
    x = [int(v) for v in a]
    kw = {"weight": w} if weighted else {}
    r = sum_ranges(a, off, ln, dtype=rdt, normalize=normalize, **kw)
    for j, (o, l) in enumerate(zip(off, ln)):
        e = sum(x[i] * (int(w[i]) if weighted else 1) for i in range(o, o + l))
        if normalize and l:
            t = sum(int(w[i]) if weighted else 1 for i in range(o, o + l))
            ok = abs(r[j] * t - e) <= 1e-14 * e
        else:
            ok = int(r[j]) == e
        if not ok or r.dtype != rdt:
            return f"{a.tolist()} offset {o} length {l} type {rdt} weights {w.tolist() if weighted else None} normalize={normalize}: got {r[j]}, sum is {e}"
    return {"outcome": r.tobytes()}


OPTS = [(None, 0, 0), ("float64", 0, 0), ("float64", 0, 1), (None, 1, 0), ("float64", 1, 0), ("float64", 1, 1), ("complex128", 0, 1), ("int64", 0, 0), ("float32", 1, 1)]


def layouts(t):
    for nr in range(0, 5):
        for n in range(0, (10 if t else 8) if nr < 4 else (9 if t else 6)):
            for parts in E.compositions(n, 2 * nr + 1):
                yield parts


def main():
    chk = Check("C14", "exploration")
    if chk.replay_requested({"assign": assign_case, "ranges that": bad_case, "sum_ranges": sum_case, "sums": wide_case}):
        return
    t = chk.thorough
    lay = list(layouts(t))
    k, ca, cs = 0, [], []
    for parts in lay:
        for trail in (TRAIL if t else [TRAIL[0], TRAIL[1 + k % 3]]):
            ca.append((parts, DT[k % 7], ODT[k % 5], trail, k))
            k += 1
        for i in range(len(OPTS) if t else 3):
            o = OPTS[(i * 3 + k) % len(OPTS)]
            dt = DT[(k // 3) % 7]
            if o[0] and o[0] != "complex128" and dt == "complex128":
                dt = "float32"
            if o[0] == "int64" and dt in ("float64", "float32"):
                dt = "uint8"
            cs.append((parts, dt, ODT[k % 5], TRAIL[k % 4], o, k))
            k += 1
    # long ranges: types that are wider than the input, many ranges
    for dt, rdt in (("uint8", "int64"), ("int32", "float64"), ("float32", "float64"), ("uint8", None)):
        for parts in ((3, 400, 0, 0, 2, 300, 1), (0, 1000, 0), (0, 0, 0, 0, 700), (1,) * 201, (0, 3) * 100 + (0,), (2, 0) * 60 + (5,)):
            cs.append((parts, dt, "int64", (), (rdt, 0, 0), 3))
            ca.append((parts, dt, "int64", (), 3))
    bad = []
    for n in range(1, 5):
        rr = [(o, l) for o in range(n) for l in range(1, n - o + 1)]
        for m in (2, 3):
            for rs in itertools.product(rr, repeat=m):
                if any(rs[i][0] + rs[i][1] > rs[i + 1][0] for i in range(m - 1)):
                    for w in ("assign", "sum"):
                        bad.append((n, rs, ODT[len(bad) % 5], w))
    chk.run_cases("assign_ranges", ca, assign_case, nontrivial=lambda c: len(c[0]) > 1)
    chk.run_cases("sum_ranges", cs, sum_case, nontrivial=lambda c: len(c[0]) > 1)
    chk.run_cases("ranges that overlap or are out of order", bad, bad_case)
    wide = [(parts, dt, rdt, w, nm, i) for parts in [p for p in lay if len(p) > 1 and sum(p[1::2]) > 1][:: 1 if t else 5] for i, (dt, rdt, w, nm) in enumerate(
        [("float32", "float64", 0, 0), ("int32", "int64", 0, 0), ("int32", "float64", 0, 0), ("int64", "float64", 0, 0), ("uint64", "float64", 0, 0), ("uint8", "int32", 0, 0), ("uint8", "uint64", 1, 0),
         ("float32", "float64", 1, 0), ("int32", "int64", 1, 0), ("float32", "float64", 0, 1), ("float32", "float64", 1, 1), ("uint8", "float64", 1, 1), ("int32", "float64", 1, 1)])]
    chk.run_cases("sums which do not fit the input type", wide, wide_case)
    chk.assumptions = ["ranges lie inside the array; values are such that the sums are exact; the mean is compared to rounding"]
    chk.finish(rule="every sequence of gaps and ranges (zero lengths allowed anywhere) with up to 4 ranges in arrays of up to 7 elements (thorough: 9); every 2 or 3 ranges of an array of up to 4 elements which overlap or are out of order; sums which are exact only in the requested type; "
                    "types, index types, trailing shapes and options rotate; non-trivial: at least one range",
               extra={"states": len(ca) + len(cs) + len(bad) + len(wide)})


if __name__ == "__main__":
    main()
