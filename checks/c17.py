"""C17: byte order, Fortran records, conversion and hash of binary files"""
import hashlib
import itertools
import os
import struct
import numpy as np
from mc.framework import Check, use_repo, Violation

use_repo()
CHK = None
BIG = 65535


def fail(x):
    raise Violation(x)


def scratch():
    d = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    return d


def leaves(dt, base=()):
    """paths of the fields of a (possibly nested) structured type which have values"""
    if dt.names is None:
        return [base]
    return [q for n in dt.names for q in leaves(dt[n].base, base + (n,))]


def part(a, q):
    for n in q:
        a = a[n]
    return a


def stored(a, dt):
    """the bytes of array a as dt, with some byte between fields where numpy would leave undefined ones"""
    dt = np.dtype(dt)
    if dt.names is None:
        return a.astype(dt).tobytes()
    buf = bytearray((i * 37 + 11) % 251 for i in range(a.size * dt.itemsize))
    if buf:
        o = np.ndarray(a.shape, dt, buf)
        for q in leaves(dt):
            part(o, q)[...] = part(a, q)
    return bytes(buf)


def vals(dt, shape, k, endian):
    """(values in the declared type, bytes in the file)"""
    dt = np.dtype(dt)
    n = int(np.prod(shape, dtype=int))
    nat = dt.newbyteorder("=")
    a = np.zeros(n, nat)
    flat = a
    if dt.fields:
        for j, name in enumerate(nat.names):
            sub = np.arange(int(np.prod(nat[name].shape, dtype=int)) * n).reshape((n,) + nat[name].shape) * 3 + k + j * 1000
            a[name] = sub.astype("S3") if nat[name].base.kind == "S" else sub.astype(nat[name].base)
    elif dt.kind == "S":
        flat[:] = [f"{(k * 7 + i) % 97}".encode() for i in range(n)]
    elif dt.kind == "b":
        flat[:] = [(i + k) % 3 == 0 for i in range(n)]
    elif dt.kind == "c":
        flat[:] = [k + i + 1j * (i * 258 + 3) for i in range(n)]
    else:
        flat[:] = np.asarray([(k * 259 + i * 771 + 1) % (200 if dt.itemsize == 1 else 30000) for i in range(n)])
    a = a.reshape(shape)
    return a.astype(dt), stored(a, nat.newbyteorder(endian))


def same(a, b, native=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind == b.dtype.kind == "S" and a.shape == b.shape:
        return a.tolist() == b.tolist()
    if a.dtype.names and a.dtype.names == b.dtype.names:
        return a.shape == b.shape and leaves(a.dtype) == leaves(b.dtype) and all(same(part(a, q), part(b, q)) for q in leaves(a.dtype))
    if a.shape != b.shape or a.dtype.newbyteorder("=") != b.dtype.newbyteorder("="):
        return False
    return a.astype(a.dtype.newbyteorder("<")).tobytes() == b.astype(b.dtype.newbyteorder("<")).tobytes()


# ---------------------------------------------------------------- Fortran records
RECS = [[], [("i4", ())], [("i4", (3,)), ("S2", ())], [("f8", (2, 2)), ("u2", (5,))], [("u1", (BIG,))], [("u1", (BIG + 1,))], [("u1", (256,))], [("f4", (64 * 3,))]]
BAD = ["none", "start+1", "end+1", "both+1", "both-4", "start swapped", "end swapped", "both swapped", "cut in end marker", "cut in data", "cut in start marker", "both negative"]


def record_case(case):
    from virgo.util.read_binary import BinaryFile
    recs, fend, assumed, auto, bad, which = case
    path = os.path.join(scratch(), "rec")
    out, expect = b"", []
    for i, r in enumerate(recs):
        blocks = [vals(dt, sh, 10 * i + j, fend) for j, (dt, sh) in enumerate(RECS[r])]
        body = b"".join(b for _, b in blocks)
        s = e = struct.pack(fend + "i", len(body))
        if i == which:
            alt = lambda d: struct.pack(fend + "i", len(body) + d)
            if bad == "start+1":
                s = alt(1)
            elif bad == "end+1":
                e = alt(1)
            elif bad == "both+1":
                s = e = alt(1)
            elif bad == "both-4":
                s = e = alt(-4)
            elif bad == "both negative":
                s = e = struct.pack(fend + "i", -len(body) - 1)
            elif bad == "start swapped":
                s = s[::-1]
            elif bad == "end swapped":
                e = e[::-1]
            elif bad == "both swapped":
                s, e = s[::-1], e[::-1]
            elif bad.startswith("cut"):
                keep = {"cut in end marker": s + body + e[:2], "cut in data": s + body[:-1], "cut in start marker": s[:3]}[bad]
                out += keep
                expect.append((s, len(body), e, blocks, len(keep)))
                break
        out += s + body + e
        expect.append((s, len(body), e, blocks, None))
    with open(path, "wb") as o:
        o.write(out)
    # what must happen, from the bytes
    order = {"=": "<", "<": "<", ">": ">"}[assumed]
    steps = []
    for s, n, e, blocks, cut in expect:
        if cut is not None and (cut < 4 or cut < 8 + n):
            steps.append("error")
            break
        if s != e or (auto and n > BIG):
            steps.append("error")
            break
        if struct.unpack(order + "i", s)[0] == n:
            steps.append("ok")
        elif auto and struct.unpack(order + "i", s[::-1])[0] == n:
            order = "<" if order == ">" else ">"
            steps.append("ok")
        else:
            steps.append("error")
            break
    f = BinaryFile(path)
    if assumed != "=":
        f.set_endian(assumed)
    names = []
    for i, st in enumerate(steps):
        try:
            f.start_fortran_record(auto_byteswap=auto)
            for j, (dt, sh) in enumerate(RECS[recs[i]]):
                (f.add_attribute if (i + j) % 3 == 2 else f.add_dataset)(f"r{i}/b{j}", dt, sh)
            f.end_fortran_record()
            got = "ok"
        except IOError:
            got = "error"
        if got != st:
            fail(f"record {i} of {[RECS[r] for r in recs]} in byte order {fend} opened as {assumed} (auto_byteswap={auto}, {bad}): {got}, expected {st}")
        if st == "error":
            return {"counts": {"nontrivial": 1, "errors": 1}}
    # values: in the byte order the reader has arrived at
    for i, (s, n, e, blocks, cut) in enumerate(expect):
        for j, (dt, sh) in enumerate(RECS[recs[i]]):
            raw = blocks[j][1]
            nat = np.dtype(dt).newbyteorder("=")
            want = np.frombuffer(raw, nat.newbyteorder(order)).reshape(sh).astype(nat)
            v = f[f"r{i}"].attrs[f"b{j}"] if (i + j) % 3 == 2 else f[f"r{i}/b{j}"][...]
            if not same(v, want):
                fail(f"record {i} block {j}: reads {v!r}, expected {want!r} (byte order {order})")
            if order == fend and not same(v, blocks[j][0]):
                fail(f"record {i} block {j}: not the values written")
    if not f.all_bytes_used():
        fail("all bytes are in records, but all_bytes_used() is false")
    f.close()
    return {"counts": {"nontrivial": int(sum(len(RECS[r]) for r in recs) > 0)}}


def misuse_case(case):
    from virgo.util.read_binary import BinaryFile
    path = os.path.join(scratch(), "mis")
    with open(path, "wb") as o:
        o.write(struct.pack("<iii", 4, 7, 4) * 3)
    f = BinaryFile(path)
    open_ = False
    for op in case:
        try:
            if op == "s":
                f.start_fortran_record()
            elif op == "d":
                f.read_and_skip("i4")
            else:
                f.end_fortran_record()
            ok = True
        except IOError:
            ok = False
        exp = (not open_) if op == "s" else open_ if op == "e" else True
        if op == "e" and open_:
            return None if True else None          # (the outcome then depends on the contents: other family)
        if ok != exp:
            fail(f"{case}: {op} {'accepted' if ok else 'refused'}")
        if not ok:
            return None
        if op == "s":
            open_ = True
    return None


# ---------------------------------------------------------------- conversions
ST = np.dtype([("i", "i4"), ("x", "f8", (2,)), ("s", "S3")])
MIX = np.dtype([("a", "<i4"), ("b", ">i4"), ("c", "u1"), ("d", ">f8", (2,))])    # a byte order of its own for each field
PAD = np.dtype([("c", "u1"), ("x", "f8"), ("n", "i2"), ("q", np.dtype([("k", "u1"), ("l", "i4")], align=True), (2,)), ("e", "u1")], align=True)    # bytes between the fields
OPS = [("D", "a", "i4", ()), ("D", "a", "f8", (2, 3)), ("D", "g/b", "i2", (3,)), ("D", "g/h/c", "S3", (2,)), ("D", "m", ">u4", (2, 2)), ("D", "g/h/n", "f4", (0, 3)), ("D", "k", "c8", (3,)),
       ("D", "g/s", ST, (4,)), ("D", "u", "u1", (7,)), ("D", "q", "?", (5,)), ("A", "t", "i4", ()), ("A", "a/t", "f4", (2,)), ("A", "g/t", "u8", ()), ("A", "g/b/t", "i2", (3,)), ("A", "g/h/u", "S2", ()),
       ("A", "g/h/c/w", "f8", (2, 2)), ("A", "v", ">f8", (2,)), ("D", "big", "i4", (100, 3)), ("D", "y", ST, ()), ("D", "g/mix", MIX, (3,)), ("D", "pad", PAD, (3,)), ("D", "g/pad1", PAD, ())]


def legal(seq):
    sets, groups, attrs = set(), {""}, set()
    for k in seq:
        op = OPS[k]
        c = op[1].split("/")
        par = ["/".join(c[:i]) for i in range(1, len(c))]
        if op[0] == "D":
            if op[1] in sets or op[1] in groups or any(p in sets for p in par):
                return False
            sets.add(op[1])
            groups |= set(par)
        else:
            if op[1] in attrs or any(p in sets for p in par[:-1]):
                return False
            attrs.add(op[1])
            if not (par and par[-1] in sets):
                groups |= set(par)
    return True


def describe(f, seq):
    for k in seq:
        op = OPS[k]
        (f.add_dataset if op[0] == "D" else f.add_attribute)(op[1], op[2], op[3])


def check_h5(h, seq, data, what):
    import h5py
    sets = {OPS[k][1]: data[i] for i, k in enumerate(seq) if OPS[k][0] == "D"}
    attrs = {OPS[k][1]: data[i] for i, k in enumerate(seq) if OPS[k][0] == "A"}
    groups = set()
    for p in list(sets) + list(attrs):
        c = p.split("/")
        groups |= {"/".join(c[:i]) for i in range(1, len(c))}
    groups -= set(sets)
    found = {}
    h.visititems(lambda n, o: found.__setitem__(n, o))
    fs = {n for n, o in found.items() if isinstance(o, h5py.Dataset)}
    fg = {n for n, o in found.items() if isinstance(o, h5py.Group)}
    if fs != set(sets) or fg != groups:
        fail(f"{what}: datasets {sorted(fs)} groups {sorted(fg)}, declared were {sorted(sets)} and {sorted(groups)}")
    for p, v in sets.items():
        if not same(found[p][...], v):
            fail(f"{what}: dataset {p} is {found[p][...]!r}, the binary file has {v!r}")
    seen = {n: o.attrs for n, o in found.items()}
    seen[""] = h.attrs
    fa = {(n + "/" + a if n else a) for n, at in seen.items() for a in at}
    if fa != set(attrs):
        fail(f"{what}: attributes {sorted(fa)}, declared were {sorted(attrs)}")
    for p, v in attrs.items():
        n, a = p.rsplit("/", 1) if "/" in p else ("", p)
        g = seen[n][a]
        if not same(np.asarray(g).astype(np.asarray(v).dtype) if np.asarray(v).dtype.kind == "S" else g, v):
            fail(f"{what}: attribute {p} is {g!r}, the binary file has {v!r}")


def convert_case(case):
    import h5py
    from virgo.util.read_binary import BinaryFile
    seq, fend, gap, opt = case
    d = scratch()
    path = os.path.join(d, "conv")
    if gap and not any(int(np.prod(OPS[k][3], dtype=int)) for k in seq[gap:]):
        gap = 0              # (a gap at the end of the file is not copied)
    data, raw, offs = [], b"", []
    for i, k in enumerate(seq):
        v, b = vals(OPS[k][2], OPS[k][3], 5 * i + k, fend)
        if gap and i == gap:
            raw += b"\xaa" * 3
        offs.append(len(raw))
        data.append(v)
        raw += b
    with open(path, "wb") as o:
        o.write(raw)
    f = BinaryFile(path)
    f.set_endian(fend)
    for i, k in enumerate(seq):
        if gap and i == gap:
            f.skip_bytes(3)
        describe(f, [k])
    hf, h2, hb = (os.path.join(d, x) for x in ("out.h5", "sub.h5", "out.bin"))
    for p in (hf, h2, hb):
        if os.path.exists(p):
            os.unlink(p)
    gz = (0, 6, 1)[opt % 3]
    f.write_hdf5(hf, gzip=gz) if opt % 2 else f.write_hdf5(filename=hf, gzip=gz)
    with h5py.File(hf, "r") as h:
        check_h5(h, seq, data, f"write_hdf5 (gzip={gz})")
    try:
        f.write_hdf5(hf)
    except IOError:
        pass
    else:
        fail("write_hdf5 overwrote an existing file")
    if opt % 4 == 0:
        f.write_hdf5(hf, mode="w")
        with h5py.File(hf, "r") as h:
            check_h5(h, seq, data, "write_hdf5 (default compression)")
    # binary
    for endian in (None, "<", ">", "="):
        if os.path.exists(hb):
            os.unlink(hb)
        f.write_binary(hb, endian=endian) if endian else f.write_binary(hb)
        got = open(hb, "rb").read()
        exp = bytearray(max([offs[i] + data[i].nbytes for i in range(len(seq)) if data[i].nbytes], default=0))
        for i, k in enumerate(seq):
            b = stored(data[i], data[i].dtype.newbyteorder(endian) if endian else data[i].dtype)
            if b:
                exp[offs[i]:offs[i] + len(b)] = b
        if got != bytes(exp):
            fail(f"write_binary(endian={endian}) of {[OPS[k] for k in seq]} stored in byte order {fend}: got {got[:60]!r}, expected {bytes(exp)[:60]!r}")
        if endian == fend and not gap and got != raw:
            fail("write_binary in the byte order of the file is not the file")
        if endian:
            g = BinaryFile(hb)
            g.set_endian(endian)
            for i, k in enumerate(seq):
                if gap and i == gap:
                    g.skip_bytes(3)
                describe(g, [k])
            for i, k in enumerate(seq):
                o = OPS[k]
                own, nm = o[1].rsplit("/", 1) if "/" in o[1] else ("", o[1])
                v = g[o[1]][...] if o[0] == "D" else (g[own] if own else g).attrs[nm]
                if not same(v, data[i]):
                    fail(f"{o} reads {v!r} from the copy, it is {data[i]!r}")
            if not gap and g.hash() != f.hash():
                fail("a copy in another byte order has another hash")
            g.close()
    if os.path.exists(hb):
        try:
            f.write_binary(hb)
        except IOError:
            pass
        else:
            fail("write_binary overwrote an existing file")
    if not gap:
        le = b"".join(stored(v, v.dtype.newbyteorder("<")) for v in data)
        for ht in ("sha1", "md5", "sha256"):
            hh = f.hash(ht) if ht != "sha1" else f.hash()
            if hh != hashlib.new(ht, le).hexdigest():
                fail(f"{ht} of {[OPS[k] for k in seq]} in byte order {fend} is {hh}, of the little-endian contents {hashlib.new(ht, le).hexdigest()}")
    elif raw:
        try:
            f.hash()
        except IOError:
            pass
        else:
            fail("hash of a file with undeclared bytes")
    if open(path, "rb").read() != raw:
        fail("the file itself has changed")
    f.close()
    return {"counts": {"nontrivial": int(len(seq) > 0)}}


def main():
    global CHK
    chk = CHK = Check("C17", "fault_enumeration")
    if chk.replay_requested({"Fortran": record_case, "misuse": misuse_case, "conversions": convert_case}):
        return
    t = chk.thorough
    small = [0, 1, 2, 3, 6]
    rec = []
    seqs = [(r,) for r in range(len(RECS))] + list(itertools.product(range(len(RECS)) if t else small + [4, 5], repeat=2)) + list(itertools.product(small, repeat=3 if t else 2)) + \
        ([] if t else [(1, 2, 3), (0, 1, 2), (3, 3, 1), (2, 0, 3), (7, 1, 0)])
    for recs in dict.fromkeys(seqs):
        for fend, assumed, auto in itertools.product("<>", "=<>", (False, True)):
            for bad in BAD:
                for which in range(len(recs)) if bad != "none" else (0,):
                    rec.append((recs, fend, assumed, auto, bad, which))
    chk.run_cases("Fortran records", rec, record_case)
    chk.run_cases("misuse of records", [p for n in range(1, 5) for p in itertools.product("sde", repeat=n)], misuse_case)
    conv = []
    for n in range(0, 4):
        for s in itertools.permutations(range(len(OPS)), n) if n < 3 or t else itertools.combinations(range(len(OPS)), 3):
            if legal(s):
                conv.append((s, "<>"[len(conv) % 2], 0 if len(conv) % 5 else max(n - 1, 0), len(conv)))
                if n < 3:
                    conv.append((s, "><"[len(conv) % 2], 0, len(conv)))
    for s in (tuple(range(1, len(OPS))), (10, 16, 2, 13, 7, 8, 18), (18, 17, 4), (20, 0, 21, 7), (8, 1, 11, 2)):
        for e in "<>":
            conv.append((tuple(k for i, k in enumerate(s) if legal(s[:i + 1])), e, 0, len(conv)))
    chk.run_cases("conversions", conv, convert_case)
    chk.assumptions = ["bool and string types have no byte order; record markers are 4 bytes"]
    chk.finish(rule="every sequence of up to 2 (a selection of 3; thorough: 3) records of 8 kinds, both byte orders, 3 assumed orders, automatic detection on and off, 11 corruptions at each record; "
                    "every set (up to 2 in every order, thorough: up to 3) of up to 3 of 22 declarations (two of them structured types with padding), both byte orders, with and without gaps, converted to HDF5 and binary and hashed",
               extra={"states": len(rec) + len(conv)})


if __name__ == "__main__":
    main()
