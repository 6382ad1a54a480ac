"""C21: Millennium snapshots: file layout, reading of cells and regions through the hash table"""
import itertools
import os
import shutil
import struct
import numpy as np
from mc.framework import Check, use_repo, Violation
from mc import peano_ref
from mc.enum import compositions

use_repo()
CHK = None
NUM = [0]
HEAD = [("NumPart_ThisFile", "u4", 6), ("MassTable", "f8", 6), ("Time", "f8", 0), ("Redshift", "f8", 0), ("Flag_Sfr", "i4", 0), ("Flag_Feedback", "i4", 0), ("NumPart_Total", "u4", 6), ("Flag_Cooling", "i4", 0),
        ("NumFilesPerSnapshot", "i4", 0), ("BoxSize", "f8", 0), ("Omega0", "f8", 0), ("OmegaLambda", "f8", 0), ("HubbleParam", "f8", 0), ("Flag_StellarAge", "i4", 0), ("Flag_Metals", "i4", 0), ("HashTabSize", "i4", 0),
        ("fill", "u1", 84)]


def fail(x):
    raise Violation(x)


def newdir():
    NUM[0] += 1
    d = os.path.join(CHK.scratch.path, f"w{os.getpid()}-{NUM[0]}")
    os.makedirs(d)
    return d


_keys = {}


def key_table(bits):
    """key -> (ix, iy, iz), by the reference"""
    if bits not in _keys:
        n = 2**bits
        g = np.indices((n, n, n)).reshape(3, -1)
        k = peano_ref.keys(*g, bits)
        _keys[bits] = g[:, np.argsort(k)].T
    return _keys[bits]


def make(bits, counts, box, k):
    """particles in the order of the hash cells"""
    cells = np.repeat(key_table(bits), counts, axis=0)
    n = len(cells)
    cs = box / 2**bits
    off = np.stack([(np.arange(n) * (3 + 2 * j) + k) % 7 for j in range(3)], axis=1) * 0.125 + 0.1
    i = np.arange(n)
    return {"Coordinates": ((cells + off) * cs).astype("f4"), "Velocities": (i[:, None] * 8 - 5 + np.arange(3) + k % 5).astype("f4"), "ParticleIDs": (i * 5 + 3).astype("u8")}


def encode(header, part, first, last, blockid, e):
    """-> bytes, records [(name, begin, end)]"""
    m = lambda n: struct.pack(e + "I", n)
    h = b"".join(np.asarray(header[n]).astype(e + t).tobytes() for n, t, _ in HEAD)
    assert len(h) == 256
    body = [("header", h)] + [(n, part[n].astype(part[n].dtype.newbyteorder(e)).tobytes()) for n in ("Coordinates", "Velocities", "ParticleIDs")]
    body += [("cells", np.asarray([first, last]).astype(e + "i4").tobytes()), ("blockid", np.asarray(blockid).astype(e + "i4").tobytes())]
    out, recs = b"", []
    for n, b in body:
        recs.append((n, len(out), len(out) + len(b) + 8))
        out += m(len(b)) + b + m(len(b))
    return out, recs


def header(n, nfiles, box, nhash, nptot, k):
    return {"NumPart_ThisFile": [7, n, 0, 0, 3, 0], "MassTable": [0, 0.0860657, 0, 0, 0, 1.5], "Time": 0.25 + k, "Redshift": 3.0, "Flag_Sfr": 1, "Flag_Feedback": 2,
            "NumPart_Total": [1, nptot % 2**32, nptot >> 32, 0, 0, 5], "Flag_Cooling": -3, "NumFilesPerSnapshot": nfiles, "BoxSize": box, "Omega0": 0.25, "OmegaLambda": 0.75, "HubbleParam": 0.73, "Flag_StellarAge": 4,
            "Flag_Metals": 5, "HashTabSize": nhash, "fill": (np.arange(84) * 3 + k) % 256}


def files_of(bits, counts, div, box, e, k):
    """div: number of cells in each file -> list of bytes, all particles"""
    part = make(bits, counts, box, k)
    start = np.concatenate([[0], np.cumsum(counts)])
    res, c = [], 0
    for nc in div:
        a, b = start[c], start[c + nc]
        p = {n: v[a:b] for n, v in part.items()}
        res.append((header(int(b - a), len(div), box, 8**bits, int(start[-1]) * 5 + 3, k), p, c, c + nc - 1, start[c:c + nc] - a))
        c += nc
    return [encode(*r, e) for r in res], part, start, res


def classes(k):
    from virgo.formats import subfind_lgadget2
    from virgo.sims import millennium
    return (subfind_lgadget2, millennium)[k % 2]


def setup(bits, counts, div, box, e, k):
    base = newdir()
    enc, part, start, raw = files_of(bits, counts, div, box, e, k)
    os.makedirs(f"{base}/snapdir_{k % 100:03d}")
    for i, (out, _) in enumerate(enc):
        with open(f"{base}/snapdir_{k % 100:03d}/snap_mil_{k % 100:03d}.{i}", "wb") as f:
            f.write(out)
    return base, part, start


def check_cells(res, part, start, cells, what):
    idx = np.concatenate([np.arange(start[c], start[c + 1]) for c in sorted(set(int(x) for x in cells))] + [np.zeros(0, dtype=int)]).astype(int)
    if not isinstance(res, tuple) or len(res) != 3:
        fail(f"{what}: result {res!r}")
    for v, name in zip(res, ("Coordinates", "Velocities", "ParticleIDs")):
        w = part[name][idx]
        if v.dtype.newbyteorder("=") != w.dtype or v.shape != w.shape:
            fail(f"{what}: {name} is {v.dtype} of shape {v.shape}, stored were {w.dtype} of shape {w.shape}")
    if sorted(res[2].tolist()) != w.tolist():
        fail(f"{what}: IDs {res[2].tolist()}, stored were {w.tolist()}")
    at = (res[2].astype(int) - 3) // 5
    for v, name in zip(res[:2], ("Coordinates", "Velocities")):
        if not np.array_equal(v, part[name][at]):
            fail(f"{what}: {name} of particles {res[2].tolist()} are {v.tolist()}, stored were {part[name][at].tolist()}")


def cells_case(case):
    bits, counts, div, e, k, subsets = case
    base, part, start = setup(bits, counts, div, 10.0, e, k)
    try:
        nc = 8**bits
        cls = classes(k).Snapshot
        snap = cls(base, "snap_mil", k % 100)
        n = 0
        for i, s in enumerate(range(2**nc) if subsets is None else subsets):
            cells = [c for c in range(nc) if s >> c & 1]
            if i % 37 == 36:
                snap = cls(base, "snap_mil", k % 100)    # nothing remembered
            kind = i % 4
            keys = cells if kind == 0 else np.asarray(cells, dtype="i8") if kind == 1 else np.asarray(cells[::-1] + cells, dtype="i4") if kind == 2 else np.asarray(cells[::-1], dtype=int)
            r = snap.read_cells(keys)
            n += 1
            check_cells(r, part, start, cells, f"cells {cells} of a {2**bits}^3 grid with {counts} particles in cells, files of {div} cells, byte order {e}")
        return {"counts": {"cell reads": n, "nontrivial": int(len(div) > 1)}}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def region_case(case):
    bits, counts, div, e, k, box, regions = case
    base, part, start = setup(bits, counts, div, box, e, k)
    try:
        nc = 2**bits
        kt = key_table(bits)
        cs = box / nc
        snap = classes(k).Snapshot(base, "snap_mil", k % 100)
        n = 0
        for i, reg in enumerate(regions):        # in units of a quarter of a cell
            sel = [{c % nc for c in range(reg[2 * j] // 4, reg[2 * j + 1] // 4 + 1)} for j in range(3)]
            cells = [c for c in range(nc**3) if all(int(kt[c][j]) in sel[j] for j in range(3))]
            # the limits are not on cell edges unless those are exact in floating point
            coords = [(x if box in (1.0, 64.0) or x % 4 else x + 0.1) * cs / 4 for x in reg]
            coords = (coords, tuple(coords), np.asarray(coords))[i % 3]
            r = snap.read_region(coords)
            n += 1
            check_cells(r, part, start, cells, f"region {coords} of a box of {box}, {nc}^3 cells with {counts} particles, files of {div} cells")
        return {"counts": {"region reads": n, "nontrivial": 1}}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def layout_case(case):
    """contents of single files"""
    bits, counts, div, e, k = case
    enc, part, start, raw = files_of(bits, counts, div, 8.0 + k % 3, e, k)
    base = newdir()
    try:
        for i, (out, recs) in enumerate(enc):
            hd, p, first, last, blockid = raw[i]
            path = f"{base}/f{i}"
            with open(path, "wb") as f:
                f.write(out)
            f = classes(k).SnapshotFile(path)
            what = f"snapshot file with {counts[first:last + 1]} particles in cells, byte order {e}"
            if set(f["Header"].attrs.keys()) != {n for n, _, _ in HEAD} or set(f.keys()) != {"Header", "PartType1", "first_hash_cell", "last_hash_cell", "blockid"} or set(f["PartType1"].keys()) != set(p):
                fail(f"{what}: contents {sorted(f.keys())} {sorted(f['Header'].attrs.keys())}")
            for n, t, c in HEAD:
                v, w = np.asarray(f["Header"].attrs[n]), np.asarray(hd[n]).astype(t)
                if v.dtype.newbyteorder("=") != w.dtype or not np.array_equal(v, w):
                    fail(f"{what}: header {n} is {v!r}, stored was {w!r}")
            for n, w in list({f"PartType1/{a}": b for a, b in p.items()}.items()) + [("first_hash_cell", np.int32(first)), ("last_hash_cell", np.int32(last)), ("blockid", np.asarray(blockid, dtype="i4"))]:
                v = np.asarray(f[n][...])
                if v.dtype.newbyteorder("=") != w.dtype or v.shape != w.shape or not np.array_equal(v, w):
                    fail(f"{what}: {n} is {v!r}, stored was {w!r}")
            if not f.all_bytes_used():
                fail(f"{what}: all_bytes_used() is false")
            if f.sanity_check() is not None:
                fail(f"{what}: sanity_check()")
            f.close()
        return {"counts": {"nontrivial": int(sum(counts) > 0)}}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def fault_case(case):
    """cut files and changed markers"""
    bits, counts, div, e, k = case
    enc, part, start, raw = files_of(bits, counts, div, 8.0, e, k)
    base = newdir()
    n = 0
    try:
        def refused(data, what):
            path = f"{base}/x{n}"
            with open(path, "wb") as f:
                f.write(data)
            try:
                f = classes(n).SnapshotFile(path)
                f.sanity_check()
            except IOError:
                os.unlink(path)
                return
            fail(f"snapshot file, {what}, was opened without error")
        out, recs = enc[k % len(enc)]
        for cut in range(len(out)):
            n += 1
            refused(out[:cut], f"{len(out)} bytes cut after {cut}, records {recs}")
        for name, a, b in recs:
            ln = b - a - 8
            for at in (a, b - 4):
                for new in {ln + 1, ln - 1, ln + 4, ln * 2, ln // 2, 0, 65536, 256} - {ln, -1}:
                    n += 1
                    refused(out[:at] + struct.pack(e + "I", new) + out[at + 4:], f"marker of {name} at {at} changed from {ln} to {new}")
            for new in {ln + 1, ln + 4, ln * 2, ln // 2, 0} - {ln}:
                n += 1
                refused(out[:a] + struct.pack(e + "I", new) + out[a + 4:b - 4] + struct.pack(e + "I", new) + out[b:], f"both markers of {name} changed from {ln} to {new}")
        return {"counts": {"faults": n, "nontrivial": 1}}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def sanity_case(case):
    """single values out of range are found"""
    bits, counts, div, e, k, nptot = case
    enc, part, start, raw = files_of(bits, counts, div, 8.0, e, k)
    base = newdir()
    n = 0
    try:
        def verdict(hd, p, first, last, bid):
            out, _ = encode(hd, p, first, last, bid, e)
            path = f"{base}/x{n}"
            with open(path, "wb") as f:
                f.write(out)
            with np.errstate(all="ignore"):
                try:
                    return classes(n).SnapshotFile(path).sanity_check()
                except Exception as ex:
                    return ex
                finally:
                    os.unlink(path)
        cs = 8.0 / 2**bits
        for hd, p, first, last, bid in raw:
            hd = dict(hd, NumPart_Total=[0, nptot % 2**32, nptot >> 32, 0, 0, 0])
            p = {a: b.copy() for a, b in p.items()}
            m = len(p["ParticleIDs"])
            if m:
                p["ParticleIDs"][m // 2] = nptot
            x = verdict(hd, p, first, last, bid)
            n += 1
            if x is not None:
                fail(f"well formed snapshot file with {counts} in cells, {nptot} particles, was rejected: {x!r}")
            cells = key_table(bits)
            for i in range(m):
                bad = [("ParticleIDs", None, np.uint64(nptot + 1)), ("ParticleIDs", None, np.uint64(2**63 + 5))]
                for j in range(3):
                    bad += [("Coordinates", j, v) for v in (np.nan, np.inf, -np.inf, -0.5, 8.5, -8.0, 100.0)] + [("Velocities", j, v) for v in (np.nan, np.inf, -np.inf, 1.1e6, -1.1e6)]
                    if bits > 0:
                        old = p["Coordinates"][i, j]
                        bad += [("Coordinates", j, v) for v in (old + cs, old - cs, old + 2 * cs) if 0 <= v <= 8 and 2**bits > 2 or v == old + cs <= 8 or v == old - cs >= 0]
                for name, j, v in bad:
                    q = dict(p)
                    q[name] = p[name].copy()
                    q[name][(i, j) if j is not None else i] = v
                    n += 1
                    if verdict(hd, q, first, last, bid) is None:
                        fail(f"snapshot file with {counts} in cells of size {cs} of a box of 8, {nptot} particles: {name} of particle {i} changed from {p[name][i]} to {q[name][i]}, was accepted")
        return {"counts": {"rejections": n, "nontrivial": 1}}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    global CHK
    chk = CHK = Check("C21", "exploration")
    if chk.replay_requested({"cells": cells_case, "regions": region_case, "files": layout_case, "faults": fault_case, "consistency": sanity_case}):
        return
    t = chk.thorough
    C8 = [(1,) * 8, (0, 2, 0, 1, 0, 0, 3, 0), (3, 0, 0, 0, 0, 0, 0, 2), (0, 0, 0, 5, 1, 0, 0, 0), (0,) * 7 + (1,), (2, 1, 0, 0, 4, 0, 1, 1)]
    D8 = [tuple(d) for n in range(1, 9) for d in compositions(8, n) if 0 not in d]
    cs = [(1, c, d, "<>"[(i + j) % 2], i + j, None) for j, c in enumerate(C8 if t else C8[:4]) for i, d in enumerate(D8)]
    if t:
        cs += [(1, tuple(c), D8[i % len(D8)], "<>"[i % 2], i, None) for i, c in enumerate(itertools.product((0, 1, 2), repeat=8))][::3]
    # finer grid: all pairs and runs of cells
    two = [1 << a | 1 << b for a in range(64) for b in range(a, 64)] + [((1 << n) - 1) << a for a in range(64) for n in range(3, 65 - a, 5)]
    C64 = [tuple((i * i * 7 + 3) % 4 for i in range(64)), tuple(int(i in (5, 40, 63)) for i in range(64)), (1,) * 64]
    D64 = [(64,), (1, 63), (63, 1), (20, 30, 14), (16,) * 4, (1,) * 5 + (59,), (8,) * 8] + ([(1,) * 64, (31, 1, 1, 31)] if t else [])
    cs += [(2, c, d, "<>"[(i + j) % 2], i, two[j::4 if not t else 1]) for i, c in enumerate(C64) for j, d in enumerate(D64)]
    chk.run_cases("cells", cs, cells_case)
    P = list(range(-3, 11))           # quarter cells, 2 cells per dimension
    iv = [(a, b) for a in P for b in P if a <= b and (a % 4 in (0, 1, 3) and b % 4 in (0, 2, 3))] + [(0, 30), (-20, -9)]
    reg = [x + y + z for x in iv for y in iv for z in (iv if t else iv[::9])]
    regs = [(1, C8[i % 4], D8[(i * 37) % 128], "<>"[i % 2], i, (10.0, 62.5, 1.0, 64.0)[i % 4], reg[i::96]) for i in range(96)]
    P2 = [(-5, -1), (-1, 1), (0, 15), (3, 4), (4, 7), (5, 6), (14, 18), (16, 17), (-30, -28), (2, 40), (7, 9), (0, 0), (15, 16)]
    reg2 = [x + y + z for x in P2 for y in P2 for z in P2]
    regs += [(2, C64[i % 3], D64[i % 7], "<>"[i % 2], i, (10.0, 100.0, 64.0, 0.7)[i % 4], reg2[i::64]) for i in range(64)]
    chk.run_cases("regions", regs, region_case)
    chk.run_cases("files", [(1, c, d, e, i) for c in C8 for i, d in enumerate(D8) for e in "<>"] + [(2, c, d, e, i) for i, c in enumerate(C64) for d in D64 for e in "<>"], layout_case)
    chk.run_cases("faults", [(1, c, d, e, i) for i, c in enumerate(C8) for d in ((8,), (3, 5), (1, 6, 1)) for e in "<>"], fault_case)
    chk.run_cases("consistency checks", [(b, c, d, "<>"[i % 2], i, npt) for b, cc, dd in ((1, C8, ((8,), (3, 5))), (2, C64[:2], ((64,), (20, 44)))) for i, c in enumerate(cc) for d in dd for npt in (10**4, 2160**3)], sanity_case)
    chk.assumptions = ["each hash cell is in exactly one file; the grid has at least 2 cells per dimension; region limits lie on cell edges only where those are exact in floating point"]
    chk.finish(rule="2^3 cells: all 128 divisions of the cells over files and all 256 sets of cells for 4 (thorough 6, and a third of all with 0-2 per cell) patterns of particles, 4^3 cells: all pairs and many runs of cells for 7 divisions; "
                    "regions with limits at quarter cells including across the boundary and larger than the box; both byte orders; files cut at every byte, changed record markers, every coordinate, velocity and ID out of range; non-trivial: several files",
               extra={"states": chk.cov.get("cell reads", 0) + chk.cov.get("region reads", 0) + chk.cov.get("faults", 0) + chk.cov.get("rejections", 0)})


if __name__ == "__main__":
    main()
