"""C18: type 1 Gadget snapshots in every variant"""
import itertools
import os
import struct
import numpy as np
from mc.framework import Check, use_repo, Violation

use_repo()
CHK = None
HEAD = [("NumPart_ThisFile", "i4", 6), ("MassTable", "f8", 6), ("Time", "f8", 0), ("Redshift", "f8", 0), ("Flag_Sfr", "i4", 0), ("Flag_Feedback", "i4", 0), ("NumPart_Total", "u4", 6),
        ("Flag_Cooling", "i4", 0), ("NumFilesPerSnapshot", "i4", 0), ("BoxSize", "f8", 0), ("Omega0", "f8", 0), ("OmegaLambda", "f8", 0), ("HubbleParam", "f8", 0),
        ("Flag_StellarAge", "i4", 0), ("Flag_Metals", "i4", 0), ("NumPart_Total_HighWord", "u4", 6)]
GAS = ["InternalEnergy", "Density", "SmoothingLength"]


def fail(x):
    raise Violation(x)


def scratch():
    d = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    return d


def build(case):
    """-> bytes, header, {path: values}, record list [(name, first byte, end)]"""
    np_, table, e, prec, ngas, extra, k = case
    head = {"NumPart_ThisFile": np.asarray(np_, "i4"), "MassTable": np.asarray([0.25 * (i + 1) if t else 0.0 for i, t in enumerate(table)]), "Time": 0.5, "Redshift": 1.0 + k, "Flag_Sfr": 1,
            "Flag_Feedback": -2, "NumPart_Total": np.asarray([n + 5 + 2**31 for n in np_], "u4"), "Flag_Cooling": 7, "NumFilesPerSnapshot": 3, "BoxSize": 62.5, "Omega0": 0.3, "OmegaLambda": 0.7,
            "HubbleParam": 0.73, "Flag_StellarAge": 11, "Flag_Metals": 12, "NumPart_Total_HighWord": np.asarray([0, 1, 0, 2, 0, 3], "u4")}
    h = b"".join(np.asarray(head[n]).astype(e + t).tobytes() for n, t, _ in HEAD)
    h += b"\x5a" * (256 - len(h))
    mark = lambda n: struct.pack(e + "I", n)
    out = mark(256) + h + mark(256)
    recs = [("header", 0, len(out))]
    data = {}
    blocks = [("Coordinates", "float", (3,), [True] * 6, prec[0]), ("Velocities", "float", (3,), [True] * 6, prec[1]), ("ParticleIDs", "int", (), [True] * 6, prec[2]),
              ("Masses", "float", (), [not t for t in table], prec[3])]
    blocks += [(g, "float", (), [True] + [False] * 5, prec[4]) for g in GAS[:ngas]]
    blocks += [(n, t, s, p, prec[4]) for n, t, s, p in extra]
    for b, (name, kind, shape, pt, nb) in enumerate(blocks):
        types = [i for i in range(6) if pt[i] and np_[i]]
        if not types:
            continue
        body = b""
        for i in types:
            n = np_[i] * int(np.prod(shape, dtype=int))
            v = (np.arange(n) * 3 + 100 * i + 1000 * b + k % 7).reshape((np_[i],) + tuple(shape))
            if kind == "float":
                v = (v / 8 + (2**-40 if nb == 8 else 0)).astype(f"f{nb}")
            else:
                v = (v + (2**40 if nb == 8 else 0)).astype(f"i{nb}")
            data[f"PartType{i}/{name}"] = v
            body += v.astype(v.dtype.newbyteorder(e)).tobytes()
        recs.append((name, len(out), len(out) + len(body) + 8))
        out += mark(len(body)) + body + mark(len(body))
    return out, head, data, recs


def open_it(path, extra, k):
    from virgo.formats import gadget_snapshot
    from virgo.sims import mxxl, millennium2, coco
    ex = None if not extra else (list(extra) if k % 2 else tuple(extra))
    c = [gadget_snapshot.open, gadget_snapshot.GadgetBinarySnapshotFile, mxxl.SnapshotFile, gadget_snapshot.open, millennium2.SnapshotFile, coco.SnapshotFile][k % 6]
    return c(path, extra=ex) if ex is not None or k % 5 == 0 else c(path)


def compare(f, head, data, names, what):
    """datasets of the records in names, nothing else"""
    for n, t, c in HEAD:
        v = np.asarray(f["Header"].attrs[n])
        e = np.asarray(head[n]).astype(t)
        if v.dtype.newbyteorder("=") != e.dtype or v.shape != e.shape or not np.array_equal(v, e):
            fail(f"{what}: header {n} is {v!r}, stored was {e!r}")
    if set(f["Header"].attrs.keys()) != {n for n, _, _ in HEAD}:
        fail(f"{what}: header attributes {list(f['Header'].attrs.keys())}")
    want = {p: v for p, v in data.items() if p.split("/")[1] in names}
    groups = {p.split("/")[0] for p in want}
    if set(f.keys()) != groups | {"Header"}:
        fail(f"{what}: groups {sorted(f.keys())}, stored were {sorted(groups)}")
    for g in groups:
        s = {p.split("/")[1] for p in want if p.startswith(g + "/")}
        if set(f[g].keys()) != s:
            fail(f"{what}: {g} has {sorted(f[g].keys())}, stored were {sorted(s)}")
    for p, e in want.items():
        d = f[p]
        v = d[...]
        if d.shape != e.shape or d.dtype.newbyteorder("=") != e.dtype or v.dtype != d.dtype or not np.array_equal(v, e):
            fail(f"{what}: {p} is {v.dtype} {v.tolist()}, stored was {e.dtype} {e.tolist()}")
        if not np.array_equal(d[1:], e[1:]):
            fail(f"{what}: {p}[1:]")


def variant_case(case):
    out, head, data, recs = build(case)
    path = os.path.join(scratch(), "snap")
    with open(path, "wb") as o:
        o.write(out)
    f = open_it(path, case[5], case[6])
    compare(f, head, data, {r[0] for r in recs}, f"variant {case}")
    f.close()
    return {"counts": {"nontrivial": int(len(recs) > 1)}}


def cut_case(case):
    """cut at every byte"""
    out, head, data, recs = build(case)
    path = os.path.join(scratch(), "cut")
    n = 0
    for cut in range(len(out)):
        with open(path, "wb") as o:
            o.write(out[:cut])
        whole = [r[0] for r in recs if r[2] <= cut]
        inside = [r for r in recs if r[1] < cut < r[2]]
        must = "header" not in whole or (len(recs) > 1 and len(whole) < 4) or (inside and cut >= inside[0][1] + 4)
        n += 1
        try:
            f = open_it(path, case[5], case[6] + cut)
        except IOError:
            continue
        if must:
            fail(f"file of {len(out)} bytes with records {recs} cut after {cut} bytes was opened without error")
        compare(f, head, data, set(whole), f"cut after {cut} bytes")
        f.close()
    return {"counts": {"cuts": n, "nontrivial": 1}}


def marker_case(case):
    """every record marker changed"""
    sub, = case
    out, head, data, recs = build(sub)
    e = sub[2]
    path = os.path.join(scratch(), "mark")
    n = 0
    for name, a, b in recs:
        ln = b - a - 8
        for at in (a, b - 4):
            for new in {ln * 2, ln // 2, ln + 1, ln - 1, ln + 4, 0, 256, 65536, ln ^ 0x01000000, int.from_bytes(struct.pack("<I", ln), "big")} - {ln}:
                x = out[:at] + struct.pack(e + "I", new) + out[at + 4:]
                with open(path, "wb") as o:
                    o.write(x)
                n += 1
                try:
                    f = open_it(path, sub[5], sub[6] + n)
                except IOError:
                    continue
                fail(f"{name} record: marker at byte {at} of {recs} changed from {ln} to {new}, the file was opened without error")
        for new in (ln * 2, ln // 2, ln + 1, ln + 4, ln - 4):    # both, agreeing with each other but not with the data
            if new == ln or (name != "header" and new in (ln // 2, ln * 2) and name == recs[-1][0]):
                continue
            x = out[:a] + struct.pack(e + "I", new) + out[a + 4:b - 4] + struct.pack(e + "I", new) + out[b:]
            with open(path, "wb") as o:
                o.write(x)
            n += 1
            try:
                f = open_it(path, sub[5], sub[6] + n)
            except IOError:
                continue
            fail(f"{name} record: both markers of {recs} changed from {ln} to {new}, the file was opened without error")
    return {"counts": {"markers": n, "nontrivial": 1}}


def hdf5_case(case):
    """the opener returns HDF5 snapshots as they are, and refuses others"""
    import h5py
    from virgo.formats import gadget_snapshot
    path = os.path.join(scratch(), "h5")
    if os.path.exists(path):
        os.unlink(path)
    if case == "hdf5":
        with h5py.File(path, "w") as h:
            h.create_group("Header").attrs["NumPart_ThisFile"] = np.arange(6)
            h["PartType1/ParticleIDs"] = np.arange(4)
        f = gadget_snapshot.open(path)
        if not np.array_equal(f["PartType1/ParticleIDs"][...], np.arange(4)):
            fail("HDF5 snapshot")
        f.close()
        return None
    if case == "missing":
        pass
    else:
        with open(path, "wb") as o:
            o.write({"empty": b"", "text": b"hello, this is not a snapshot" * 20, "zero": b"\0" * 300, "wrong": struct.pack("<I", 255) + b"\0" * 600}[case])
    try:
        gadget_snapshot.open(path)
    except IOError:
        return None
    fail(f"{case} file was opened")


def large_case(case):
    """Records of more than 2 GB, in a sparse file. Only the ends of each array are stored"""
    np_, e, prec, k = case
    head = {"NumPart_ThisFile": np.asarray(np_, "i4"), "MassTable": np.zeros(6), "Time": 0.5, "Redshift": 1.0, "Flag_Sfr": 1, "Flag_Feedback": -2, "NumPart_Total": np.asarray(np_, "u4"), "Flag_Cooling": 7,
            "NumFilesPerSnapshot": 3, "BoxSize": 62.5, "Omega0": 0.3, "OmegaLambda": 0.7, "HubbleParam": 0.73, "Flag_StellarAge": 11, "Flag_Metals": 12, "NumPart_Total_HighWord": np.zeros(6, "u4")}
    path = os.path.join(scratch(), "large")
    want = {}
    mark = lambda n: struct.pack(e + "I", n)
    try:
        with open(path, "wb") as o:
            h = b"".join(np.asarray(head[n]).astype(e + t).tobytes() for n, t, _ in HEAD)
            o.write(mark(256) + h.ljust(256, b"\0") + mark(256))
            at = 264
            for b, (name, kind, ncomp, nb) in enumerate((("Coordinates", "f", 3, prec[0]), ("Velocities", "f", 3, prec[1]), ("ParticleIDs", "i", 1, prec[2]), ("Masses", "f", 1, prec[3]))):
                size = sum(np_) * ncomp * nb
                o.write(mark(size))
                at += 4
                for i in range(6):
                    if np_[i]:
                        n = np_[i] * ncomp
                        for first, where in ((True, at), (False, at + (n - ncomp) * nb))[np_[i] == 1:]:
                            v = np.arange(1, ncomp + 1) * 7 + 100 * b + 10 * i + first
                            want[(i, name, first)] = v if ncomp > 1 else v[0]
                            o.seek(where)
                            o.write(v.astype(f"{e}{kind}{nb}").tobytes())
                        at += n * nb
                o.seek(at)
                o.write(mark(size))
                at += 4
        f = open_it(path, (), k)
        for (i, name, first), v in want.items():
            d = f[f"PartType{i}/{name}"]
            if d.shape[0] != np_[i] or not np.array_equal(d[0] if first else d[-1], v):
                fail(f"snapshot of {sum(np_)} particles: PartType{i}/{name} has shape {d.shape}, {'first' if first else 'last'} is {d[0] if first else d[-1]}, stored was {v}")
        f.close()
    finally:
        if os.path.exists(path):
            os.unlink(path)
    return None


EX = [(), (("Age", "float", (), (0, 0, 0, 0, 1, 0)),), (("Tag", "int", (2, 2), (True,) * 6), ("Acc", "float", (3,), (False, True, False, False, True, True)))]


def main():
    global CHK
    chk = CHK = Check("C18", "fault_enumeration")
    if chk.replay_requested({"variants": variant_case, "cut": cut_case, "record markers": marker_case, "other": hdf5_case, "large": large_case}):
        return
    t = chk.thorough
    cs, k = [], 0
    # every presence pattern and mass pattern; precisions and byte orders rotate (thorough: all of them)
    P = list(itertools.product((4, 8), repeat=5))
    for pres in itertools.product((0, 1), repeat=6):
        for table in itertools.product((0, 1), repeat=6):
            for rep in range(4 if t else 1):
                np_ = tuple(p * (1 + (i * 5 + k) % 4) for i, p in enumerate(pres))
                cs.append((np_, table, "<>"[(k + rep) % 2], P[(k * 7 + rep) % 32], (0, 3)[k % 2] if not k % 3 else 3, EX[(k // 2) % 3] if (k % 3 or k % 2) else (), k))
                k += 1
    for e in "<>":
        for p in P:
            for ngas in range(4):
                for np_, table in (((2, 3, 0, 0, 1, 0), (0, 1, 0, 0, 0, 0)), ((3, 0, 0, 0, 0, 0), (0,) * 6), ((0, 4, 2, 0, 0, 1), (0, 1, 1, 0, 0, 0)), ((1, 1, 1, 1, 1, 1), (1,) * 6), ((257, 70, 0, 0, 0, 300), (1, 0, 0, 0, 0, 0)), ((0, 64, 0, 0, 0, 0), (0, 1, 0, 0, 0, 0))):
                    for ex in EX if ngas == 3 or not np_[0] else EX[:1]:
                        cs.append((np_, table, e, p, ngas, ex, k))
                        k += 1
    chk.run_cases("variants", cs, variant_case)
    sub = []
    for e in "<>":
        for p in P if t else P[::4]:
            for np_, table, ngas, ex in (((2, 1, 0, 0, 1, 0), (0, 1, 0, 0, 0, 0), 3, EX[1]), ((0, 2, 0, 0, 0, 1), (0, 1, 0, 0, 0, 1), 0, ()), ((1, 0, 0, 2, 0, 0), (0,) * 6, 1, ()), ((0, 1, 0, 0, 0, 0), (0,) * 6, 0, EX[2]), ((0,) * 6, (0,) * 6, 0, ())):
                sub.append((np_, table, e, p, ngas, ex, len(sub)))
    chk.run_cases("cut at every byte", sub, cut_case)
    chk.run_cases("record markers changed", [(s,) for s in sub], marker_case)
    chk.run_cases("other files", ["hdf5", "missing", "empty", "text", "zero", "wrong"], hdf5_case)
    chk.run_cases("large", [(n, e, p, i) for i, (n, p) in enumerate([((0, 220000000, 0, 0, 130000000, 0), (4, 4, 8, 4)), ((90000000, 0, 0, 88000000, 0, 700000), (8, 8, 8, 8)), ((0, 100000000, 78000000, 0, 0, 1), (4, 8, 4, 8)),
                                                                        ((0, 2, 0, 0, 178000000, 1), (8, 4, 8, 4))]) for e in "<>"], large_case)
    chk.assumptions = ["records appear in the documented order; the optional ones are present up to some point; all of a record has one precision"]
    chk.finish(rule="every combination of particle types present and of types with a mass in the table, all combinations of precision (4 or 8 bytes) of 5 kinds of records, both byte orders, 0-3 gas blocks, 3 sets of extra blocks; "
                    "files cut at every byte; every record marker replaced by up to 10 other values and both markers of a record by 5; records of 2 to 4 GB in sparse files; non-trivial: there are particles",
               extra={"states": len(cs) + chk.cov.get("cuts", 0) + chk.cov.get("markers", 0)})


if __name__ == "__main__":
    main()
