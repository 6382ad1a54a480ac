"""C26: every type and rank through the Fortran HDF5 wrapper"""
import itertools
import os
import shutil
import numpy as np
from mc.framework import Check, use_repo, Violation
from mc import fwrap

use_repo()
CHK = None
EXE = None
EXTREME = {"i4": (-2**31, 2**31 - 1, 0, -1, 7, 65536), "i8": (-2**63, 2**63 - 1, 2**53 + 1, 0, -1, 2**31), "f4": (1.5, -np.inf, 1e-45, 0.0, 3.4e38, -0.1), "f8": (0.1, np.inf, 5e-324, -0.0, 1e300, -2.0**-30)}
TYPES = ("i4", "i8", "f4", "f8", "S1", "S7")


def fail(x):
    raise Violation(x)


def data(t, shape, k=0):
    """Distinct or extreme values"""
    n = int(np.prod(shape)) if shape else 1
    if t[0] == "S":
        w = int(t[1:])
        pool = [b"q", b"", b"ab cdefg"[:w], b" x" if w > 1 else b"x", b"\xff\x01~"[:w], b"(/hello/)"[:w]]
        x = [pool[(i + k) % 6] if (i + k) % 4 else (b"%d" % (i + k))[-w:] for i in range(n)]
    else:
        x = [EXTREME[t][(i + k) % 6] if (i * 7 + k) % 5 == 0 or n <= 2 else i + 1 + 10 * k for i in range(n)]
    return np.array(x, dtype=t).reshape(shape)


def blank(t, shape):
    if t[0] == "S":
        return np.full(shape, b"Z" * int(t[1:]), dtype=t)
    return np.full(shape, -99, dtype=t)


def same(got, want):
    if got.dtype.kind == "S":
        f = lambda a: [x.rstrip(b" \0") for x in np.ravel(a).tolist()]
        return got.shape == want.shape and f(got) == f(want)
    return got.shape == want.shape and got.tobytes() == want.astype(got.dtype).tobytes()


def execute(s, what):
    """Run a script in which every call must succeed"""
    base = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    res, rc, text = s.run(EXE, base + "/s")
    if len(res) < len(s.want) or rc:
        n = len(res)
        fail(f"call {n} of {len(s.want)} fails: {what(n) if n < len(s.want) else 'end of program'}: {' '.join(text.split())[-500:]}")
    return res, base


def cleanup():
    shutil.rmtree(os.path.join(CHK.scratch.path, f"w{os.getpid()}"), ignore_errors=True)


def stored(f, name):
    x = f[name][()]
    if not isinstance(x, np.ndarray):
        x = np.asarray(x, dtype=f[name].dtype)
    return x


OPTIONS = [{}, dict(gzip=1), dict(gzip=0), dict(extensible=True), dict(stride=2), dict(gzip=19), dict(extensible=False), dict(overwrite=True), dict(gzip=9, chunk=1), dict(extensible=True, chunk=2, gzip=14), dict(overwrite=False, szip=False),
           dict(gzip=6, stride=3, overwrite=True), dict(init=1), dict(init=2, extensible=True)]


def roundtrip_case(case):
    import h5py
    s = fwrap.Script()
    note = {}
    checks = []
    fn = "a.hdf5"
    s.create(0, fn)
    for i, (t, shape, o, k) in enumerate(case):
        x = data(t, shape, k)
        r = len(shape)
        name = ("/D%d", "D%d", "g/D%d", "g/h%d/D")[k % 4] % i
        kw = dict(OPTIONS[o])
        chunk = kw.pop("chunk", None)
        init = kw.pop("init", None)
        if chunk:
            kw["chunk_size"] = [chunk] * r
        total = shape
        if init:
            if r == 0 or 0 in shape:
                init = None
            else:
                total = tuple(n + init - j % 2 for j, n in enumerate(shape))
                kw.update(initial_size=total[::-1], start=[1] * r, count=shape[::-1])
        what = f"writing {t}{list(shape)} with {kw}"
        first = len(s.want)
        s.write(0, name, x, **kw)
        s.dims(0, name)
        s.type(0, name)
        t2 = t if t[0] != "S" or k % 3 else "S%d" % (int(t[1:]) + 3)
        s.read(0, name, blank(t2, total), stride=kw.get("stride", 1))
        for j in range(4):
            note[first + j] = what
        full = np.zeros(total, dtype=t)
        full[tuple(slice(0, n) for n in shape)] = x
        checks.append((name, t, full, kw, first, what))
    s.close(0)
    s.open(1, fn, readonly=True)
    later = len(s.want)
    for name, t, full, kw, first, what in checks:
        s.read(1, name, blank(t, full.shape))
        note[len(s.want) - 1] = "reading after " + what
    s.close(1)
    res, base = execute(s, lambda n: note.get(n, "open or close"))
    with h5py.File(base + "/" + fn, "r") as f:
        for i, (name, t, full, kw, first, what) in enumerate(checks):
            rank, dims = res[first + 1]
            if rank != full.ndim or tuple(dims[:rank]) != full.shape[::-1]:
                fail(f"{what}: dimensions are {rank}: {dims[:max(rank, 0)]}")
            kind, size = res[first + 2]
            if size != full.dtype.itemsize or kind not in {"i": ("INTEGER",), "f": ("REAL",), "S": ("CHARACTER", "STRING")}[full.dtype.kind]:
                fail(f"{what}: type is {kind} with size {size}")
            got = res[first + 3]
            st = kw.get("stride", 1)
            if full.ndim and st > 1:
                for j in range(1, st):
                    rest = got[..., j::st]
                    if rest.dtype.kind != "S" and np.any(np.ascontiguousarray(rest).view("u1") != fwrap.PATTERN):
                        fail(f"{what}: reading into every {st}th element changes the others: {got.tolist()}")
                got = got[..., ::st]
            if not same(got, full):
                fail(f"{what}: wrote {full.tolist()}, read {got.tolist()}")
            if not same(res[later + i], full):
                fail(f"{what}: wrote {full.tolist()}, read {res[later + i].tolist()} after reopening")
            d = f[name]
            if d.dtype.kind != full.dtype.kind or d.dtype.itemsize != full.dtype.itemsize or not same(stored(f, name), full):
                fail(f"{what}: wrote {full.tolist()}, file contains {stored(f, name).tolist()} ({d.dtype})")
            if full.ndim:
                ext = kw.get("extensible", False)
                if d.maxshape != ((None,) * full.ndim if ext else full.shape):
                    fail(f"{what}: maximum dimensions are {d.maxshape}")
                gz = kw.get("gzip", 0)
                if (d.compression == "gzip") != (gz % 10 > 0) or (gz % 10 > 0 and (d.compression_opts != gz % 10 or d.shuffle != (gz > 9))):
                    fail(f"{what}: compression is {d.compression} {d.compression_opts}, shuffle {d.shuffle}")
                if d.chunks and "chunk_size" in kw and any(c > max(kw["chunk_size"][0], 1) for c in d.chunks):
                    fail(f"{what}: chunks are {d.chunks}")
    cleanup()
    return {"counts": {"datasets": len(case), "nontrivial": sum(1 for c in case if c[1])}}


def ranges(n, zero):
    """All (start, count) in a dimension of n"""
    return [(a, c) for a in range(n) for c in range(0 if zero else 1, n - a + 1)]


def place(target, piece):
    """Copy of target with piece in the first elements of every dimension, dimensions of size 1 are dropped if the ranks differ"""
    out = target.copy()
    if out.ndim == piece.ndim and all(a >= b for a, b in zip(out.shape, piece.shape)):
        out[tuple(slice(0, n) for n in piece.shape)] = piece
        return out
    p = piece.squeeze()
    q = out.reshape([n for n in out.shape if n > 1])
    q[tuple(slice(0, n) for n in p.shape)] = p
    return q.reshape(target.shape)


def section_case(case):
    """Read and write sections"""
    import h5py
    t, shape, sels, k = case
    r = len(shape)
    x = data(t, shape, k)
    s = fwrap.Script()
    s.create(0, "a.hdf5")
    opts = [{}, dict(gzip=3), dict(extensible=True), dict(extensible=True, chunk_size=[2] * r, gzip=12)][k % 4]
    s.write(0, "g/D", x, **opts)
    s.write(0, "g/other", x, **opts)
    note, checks, writes = {}, [], []
    expect = np.copy(x)
    for i, sel in enumerate(sels):
        start = [a + 1 for a, c in sel][::-1]
        count = [c for a, c in sel][::-1]
        sl = tuple(slice(a, a + c) for a, c in sel)
        piece = x[sl]
        targets = [piece.shape, tuple(c + 1 for c in piece.shape), tuple(c + (i + j) % 3 for j, c in enumerate(piece.shape))]
        sq = tuple(c for c in piece.shape if c != 1)
        if 0 not in piece.shape:
            targets.append(sq)
            if len(sq) < 6:
                targets.append((1,) + tuple(sq) + (1,))
            if sq:
                targets.append(tuple(c + 1 for c in sq))
        for ts in targets:
            tgt = blank(t, ts)
            what = f"reading start={start}, count={count} of {t}{list(shape)} into an array {list(ts)} (dimensions in C order)"
            note[len(s.want)] = what
            checks.append((len(s.want), what, place(tgt, piece)))
            s.read(0, "g/D", tgt, start=start, count=count)
        # a new section of E
        y = data(t, piece.shape, k + i + 1)
        src = [piece.shape, tuple(c + 1 for c in piece.shape)] + ([sq] if 0 not in piece.shape else [])
        for j, ss in enumerate(src):
            arr = blank(t, ss)
            y = data(t, piece.shape, k + i + 1 + j)
            arr = place(arr, y)
            what = f"writing start={start}, count={count} of {t}{list(shape)} from an array {list(ss)} (dimensions in C order)"
            note[len(s.want)] = what
            s.write(0, "g/other", arr, start=start, count=count, stride=1 + (i + j) % 2)
            expect = expect.copy()
            expect[sl] = y
            writes.append((len(s.want), what, expect))
            note[len(s.want)] = "reading after " + what
            s.read(0, "g/other", blank(t, shape))
        # an array of another size into which the section can not be read or from which it can not be written is in the family errors
    s.close(0)
    res, base = execute(s, lambda n: note.get(n, "open, create, close"))
    for i, what, want in checks + writes:
        if not same(res[i], want):
            fail(f"{what}: result is {res[i].tolist()}, should be {want.tolist()}")
    with h5py.File(base + "/a.hdf5", "r") as f:
        if not same(stored(f, "g/D"), x) or not same(stored(f, "g/other"), expect):
            fail(f"datasets in the file are {stored(f, 'g/D').tolist()} and {stored(f, 'g/other').tolist()} after writing sections, should be {x.tolist()} and {expect.tolist()}")
    cleanup()
    return {"counts": {"sections": len(checks) + len(writes), "nontrivial": len(checks) + len(writes)}}


def extend_case(case):
    """Sections written to extensible datasets, in any order"""
    import h5py
    t, blocks, opt, k = case
    s = fwrap.Script()
    s.create(0, "a.hdf5")
    shape = None
    full = None
    note, checks = {}, []
    for i, sel in enumerate(blocks):
        piece = data(t, tuple(c for a, c in sel), k + i)
        r = len(sel)
        ends = tuple(a + c for a, c in sel)
        kw = {}
        if i == 0:
            kw = dict(extensible=True, **[{}, dict(gzip=2), dict(chunk_size=[1] * r), dict(chunk_size=list(range(2, 2 + r)), gzip=11), dict(initial_size=[0] * r), dict(initial_size=[4] * r)][opt])
            if "initial_size" in kw and kw["initial_size"][0] == 0:
                # created empty, then filled
                note[len(s.want)] = f"creating an empty extensible dataset {t}, rank {r}"
                s.write(0, "g/E", data(t, (0,) * r), extensible=True)
                kw = {}
                shape = (0,) * r
                full = np.zeros(shape, dtype=t)
            else:
                shape = tuple(kw["initial_size"]) if "initial_size" in kw else (0,) * r
                full = np.zeros(shape, dtype=t)
                if "initial_size" in kw and any(e > n for e, n in zip(ends, shape)):
                    kw.pop("initial_size")
                    shape = (0,) * r
                    full = np.zeros(shape, dtype=t)
        new = tuple(max(a, b) for a, b in zip(shape, ends))
        big = np.zeros(new, dtype=t)
        big[tuple(slice(0, n) for n in shape)] = full
        big[tuple(slice(a, a + c) for a, c in sel)] = piece
        shape, full = new, big
        what = f"writing blocks {blocks[:i + 1]} (start, count in C order) of {t} to an extensible dataset"
        note[len(s.want)] = what
        s.write(0, "g/E", piece, start=[a + 1 for a, c in sel][::-1], count=[c for a, c in sel][::-1], **kw)
        s.dims(0, "g/E")
        s.read(0, "g/E", blank(t, shape))
        for j in range(1, 3):
            note[len(s.want) - j] = "reading after " + what
        checks.append((len(s.want) - 1, what, full))
        if (i + k) % 2:
            s.close(0)
            s.open(0, "a.hdf5")
    s.close(0)
    res, base = execute(s, lambda n: note.get(n, "open, create, close"))
    for i, what, want in checks:
        rank, dims = res[i - 1]
        if tuple(dims[:rank]) != want.shape[::-1]:
            fail(f"{what}: dimensions are {dims[:rank]}, should be {want.shape[::-1]}")
        if not same(res[i], want):
            fail(f"{what}: result is {res[i].tolist()}, should be {want.tolist()}")
    with h5py.File(base + "/a.hdf5", "r") as f:
        if not same(stored(f, "g/E"), full):
            fail(f"{what}: dataset in the file is {stored(f, 'g/E').tolist()}, should be {full.tolist()}")
    cleanup()
    return {"counts": {"blocks": len(blocks), "nontrivial": len(blocks) - 1}}


def attribute_case(case):
    import h5py
    s = fwrap.Script()
    s.create(0, "a.hdf5")
    s.group(0, "g/sub")
    s.write(0, "g/D", np.arange(3))
    s.write(0, "top", np.arange(3.0))
    note, checks = {}, []
    for i, (t, shape, kinds, k) in enumerate(case):
        x = data(t, shape, k) if kinds == (t,) else np.abs(np.arange(int(np.prod(shape)) if shape else 1) * 3 + k % 50).astype(t).reshape(shape)
        name = ("g/", "g/sub/", "g/D/", "top/", "/", "/g/")[k % 6] + "at%d" % i
        what = f"attribute {name} {t}{list(shape)}"
        first = len(s.want)
        if k % 3 == 0:
            s.wattr(0, name, data(("i4", "S7", "f8")[k // 3 % 3], (2,), k), overwrite=(None, True)[k // 9 % 2])
        s.wattr(0, name, x, overwrite=True if k % 3 == 0 else (None, False, True)[k // 3 % 3], stride=1 + (k % 5 == 0))
        s.dims(0, name)
        s.type(0, name)
        d = len(s.want) - 2
        for t2 in kinds:
            checks.append((len(s.want), d, name, f"{what} read as {t2}", x, t2))
            s.rattr(0, name, blank(t2, shape))
        if t[0] == "S":
            t3 = "S%d" % (int(t[1:]) + 4)
            checks.append((len(s.want), d, name, f"{what} read as {t3}", x, t3))
            s.rattr(0, name, blank(t3, shape))
        for j in range(first, len(s.want)):
            note[j] = what
    s.close(0)
    res, base = execute(s, lambda n: note.get(n, "open, create, close"))
    with h5py.File(base + "/a.hdf5", "r") as f:
        for i, d, name, what, x, t2 in checks:
            rank, dims = res[d]
            if rank != x.ndim or tuple(dims[:rank]) != x.shape[::-1]:
                fail(f"{what}: dimensions are {rank}: {dims[:rank]}")
            kind, size = res[d + 1]
            if size != x.dtype.itemsize or kind not in {"i": ("INTEGER",), "f": ("REAL",), "S": ("CHARACTER", "STRING")}[x.dtype.kind]:
                fail(f"{what}: type is {kind} with size {size}")
            want = x.astype(t2) if t2[0] != "S" else x
            if not same(res[i], want):
                fail(f"{what}: wrote {x.tolist()}, read {res[i].tolist()}")
            parent, a = name.rsplit("/", 1)
            h = f[parent or "/"].attrs
            y = np.asarray(h[a]) if not isinstance(h[a], h5py.Empty) else np.zeros(x.shape, x.dtype)
            aid = h.get_id(a)
            if aid.shape != x.shape or aid.dtype.kind != x.dtype.kind or aid.dtype.itemsize != x.dtype.itemsize or not same(np.asarray(y, dtype=aid.dtype), x):
                fail(f"{what}: wrote {x.tolist()}, file contains {y.tolist()} ({aid.dtype}, {aid.shape})")
    cleanup()
    return {"counts": {"attributes": len(case), "nontrivial": len(case)}}


def foreign_case(case):
    """Files written by another program"""
    import h5py
    t, shape, order, opt, k = case
    base = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    x = data(t, shape, k)
    ft = x.dtype if t[0] == "S" else x.dtype.newbyteorder(order)
    with h5py.File(base + "/a.hdf5", "w") as f:
        kw = [{}, dict(chunks=True), dict(compression="gzip", shuffle=True), dict(maxshape=(None,) * len(shape)), dict(fletcher32=True)][opt] if shape and 0 not in shape else {}
        f.create_dataset("g/D", data=x, dtype=ft, **kw)
        f["g"].attrs.create("at", data=x, dtype=ft)
        f.create_dataset("u/U", data=x if t[0] == "S" else np.abs(x.astype("f8")).astype("u" + t[1:]) if t[0] == "i" and False else x, dtype=ft)
    s = fwrap.Script()
    s.open(0, "a.hdf5", readonly=True)
    s.dims(0, "g/D")
    s.type(0, "g/D")
    s.read(0, "g/D", blank(t, shape))
    s.rattr(0, "g/at", blank(t, shape))
    s.dims(0, "g/at")
    s.listing("datasets", 0, "g")
    s.listing("groups", 0, "/")
    s.listing("attributes", 0, "g")
    s.close(0)
    res, rc, text = s.run(EXE, base + "/s")
    what = f"file with {ft}{list(shape)}, {kw}"
    if len(res) < len(s.want):
        fail(f"{what}: call {len(res)} fails: {' '.join(text.split())[-300:]}")
    if not same(res[3], x) or not same(res[4], x):
        fail(f"{what}: contains {x.tolist()}, read {res[3].tolist()}, attribute {res[4].tolist()}")
    if res[1][0] != len(shape) or res[1][1][:len(shape)] != shape[::-1] or res[5] != res[1]:
        fail(f"{what}: dimensions {res[1]}, {res[5]}")
    if res[6][:2] != (1, 1) or res[6][2] != ["D", "???"] or res[7][2] != ["g", "u", "???"] or res[8][2] != ["at", "???"]:
        fail(f"{what}: listings {res[6:9]}")
    cleanup()
    return None


def error_case(case):
    """Calls which can not succeed must not return, and must change nothing"""
    import h5py
    kind, a, b, k = case
    base = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    s = fwrap.Script()
    s.create(0, "a.hdf5")
    x = data(a[0], a[1], k)
    s.write(0, "g/D", x)
    s.wattr(0, "g/at", x)
    n = len(s.want)
    if kind == "read":
        s.read(0, "g/D", blank(*b))
    elif kind == "read section":
        s.read(0, "g/D", blank(a[0], b[2]), start=b[0], count=b[1])
    elif kind == "write section":
        s.write(0, "g/D", data(b[3], b[2], 5), start=b[0], count=b[1])
    elif kind == "write again":
        s.write(0, "g/D", data(*b), overwrite=(None, False)[k % 2])
    elif kind == "attribute again":
        s.wattr(0, "g/at", data(*b), overwrite=(None, False)[k % 2])
    elif kind == "missing":
        [lambda: s.read(0, "g/E", blank(*b)), lambda: s.rattr(0, "g/none", blank(*b)), lambda: s.rattr(0, "h/at", blank(*b)), lambda: s.wattr(0, "h/at", data(*b)), lambda: s.dims(0, "g/E"), lambda: s.type(0, "g/E"),
         lambda: s.listing("datasets", 0, "h"), lambda: s.listing("groups", 0, "h"), lambda: s.listing("attributes", 0, "h"), lambda: s.open(1, "none.hdf5"), lambda: s.open(1, "none.hdf5", readonly=True),
         lambda: s.read(0, "g", blank(*b)), lambda: s.write(0, "g", data(*b)), lambda: s.group(0, "g/D/x"), lambda: s.write(0, "g/E", data(*b), gzip=4, szip=True), lambda: s.create(1, "no/such/dir.hdf5")][k]()
    res, rc, text = s.run(EXE, base + "/s")
    what = f"dataset {a[0]}{list(a[1])}: {kind} {b if kind != 'missing' else k}"
    if len(res) != n:
        fail(f"{what}: call returned {res[n] if len(res) > n else 'before the end'}" if len(res) > n else f"{what}: preparation failed: {text[-300:]}")
    if rc < 0 or "Segmentation" in text or "runtime error" in text:
        fail(f"{what}: program ended with status {rc}: {' '.join(text.split())[-300:]}")
    with h5py.File(base + "/a.hdf5", "r") as f:
        if not same(stored(f, "g/D"), x) or not same(np.asarray(f["g"].attrs["at"], dtype=x.dtype), x):
            fail(f"{what}: data in the file changed to {stored(f, 'g/D').tolist()}")
        if sorted(f["g"]) not in (["D"],) or sorted(f) != ["g"] or sorted(f["g"].attrs) != ["at"]:
            fail(f"{what}: file contains {sorted(f)}, {sorted(f['g'])}")
    cleanup()
    return None


def name_case(case):
    """Nested and long names"""
    import h5py
    parts, k = case
    g = ("/" if k % 2 else "") + "/".join(parts)
    s = fwrap.Script()
    s.create(0, "a.hdf5")
    if k % 3:
        s.group(0, g + ("/" if k % 4 == 0 else ""))
        s.group(0, g)
    s.write(0, g + "/D", np.arange(3))
    s.wattr(0, g + "/at", np.arange(2.0))
    s.wattr(0, g + "/D/of dataset", np.arange(4))
    s.read(0, g + "/D", np.zeros(3, dtype="i8"))
    s.rattr(0, g + "/D/of dataset", np.zeros(4, dtype="i8"))
    s.dims(0, g + "/at")
    s.type(0, g + "/D/of dataset")
    s.listing("datasets", 0, g)
    s.listing("attributes", 0, g)
    s.listing("attributes", 0, g + "/D")
    s.listing("groups", 0, "/".join(parts[:-1]) or "/")
    s.close(0)
    what = f"group of {len(parts)} levels, {len(g)} characters"
    res, base = execute(s, lambda n: what)
    if res[-9].tolist() != [0, 1, 2] or res[-8].tolist() != [0, 1, 2, 3] or res[-7][:1] + res[-7][1][:1] != (1, 2) or res[-6] != ("INTEGER", 8) or res[-5][2] != ["D", "???"] or res[-4][2] != ["at", "???"] or res[-3][2] != ["of dataset", "???"] or res[-2][2] != [parts[-1], "???"]:
        fail(f"{what}: results {res[-9:]}")
    with h5py.File(base + "/a.hdf5", "r") as f:
        o = f
        for p in parts:
            if list(o) != [p]:
                fail(f"{what}: a group contains {list(o)}, should be {p}")
            o = o[p]
        if list(o) != ["D"] or list(o.attrs) != ["at"]:
            fail(f"{what}: group contains {list(o)}")
    cleanup()
    return None


def main():
    global CHK, EXE
    chk = CHK = Check("C26", "exploration")
    EXE = fwrap.build(chk.scratch.path)
    if chk.replay_requested({"roundtrip": roundtrip_case, "sections": section_case, "extend": extend_case, "attributes": attribute_case, "foreign": foreign_case, "errors": error_case, "names": name_case}):
        return
    t = chk.thorough
    shapes = [()]
    for r in (1, 2, 3):
        shapes += list(itertools.product((0, 1, 2, 3) if r < 3 else (0, 1, 2), repeat=r))
    shapes += [(5,), (17,), (2, 3, 4), (4, 3, 2), (3, 1, 2)]
    for r in (4, 5, 6, 7):
        shapes += list(itertools.product((1, 2), repeat=r)) if t or r < 6 else [s for s in itertools.product((1, 2), repeat=r) if sum(s) % 3 == 0]
        shapes += [tuple((1, 2, 3)[(i + a) % 3] for i in range(r)) for a in range(3)] + [tuple(0 if i == a else 2 for i in range(r)) for a in (0, r - 1)]
    items = []
    for ty in TYPES:
        for s in shapes:
            for o in range(len(OPTIONS)) if t or len(s) < 3 else [(len(items) * 5 + j * 3) % len(OPTIONS) for j in range(4)]:
                items.append((ty, s, o, len(items)))
    B = 40
    chk.run_cases("roundtrip", [items[i:i + B] for i in range(0, len(items), B)], roundtrip_case)

    cs = []
    secs = [(4,), (1,), (3, 3), (1, 4), (4, 1), (2, 3, 2), (3, 1, 2), (2, 1, 2, 2), (1, 2, 1, 2, 1), (2, 2, 2, 2, 2)] + ([(5, 4), (3, 3, 3), (2, 3, 2, 2), (2, 1, 2, 2, 1, 2), (2,) * 6, (2,) * 7, (1, 2, 3, 1, 2, 1, 2)] if t else [(1, 2, 1, 2, 1, 2), (2, 1, 1, 2, 1, 1, 2)])
    for shape in secs:
        sels = list(itertools.product(*[ranges(n, len(shape) < 3) for n in shape]))
        for ti, ty in enumerate(TYPES if t or len(shape) < 4 else [TYPES[(len(shape) + j + shape[0]) % 6] for j in (0, 3)]):
            for i in range(0, len(sels), 25):
                cs.append((ty, shape, sels[i:i + 25], len(cs)))
    chk.run_cases("sections", cs, section_case)

    cs = []
    one = [((a, c),) for a in range(4) for c in (0, 1, 2, 3)]
    for bl in itertools.product(one, repeat=3) if t else [b for i, b in enumerate(itertools.product(one, repeat=3)) if i % 3 == 0]:
        cs.append((TYPES[len(cs) % 6], bl, len(cs) // 6 % 6, len(cs)))
    two = [((a, c), (b, d)) for a in range(3) for c in (1, 2) for b in range(3) for d in (1, 2)]
    for bl in itertools.product(two, repeat=2) if not t else itertools.product(two[::2], two, two[1::3]):
        cs.append((TYPES[len(cs) % 6], bl, len(cs) // 6 % 6, len(cs)))
    for r in (3, 4, 5, 6, 7):
        for j in range(24 if not t else 200):
            bl = tuple(tuple(((j * (i + 2) + d * 5) % 2, 1 + (j // 2 + i + d) % 2) for d in range(r)) for i in range(3))
            cs.append((TYPES[len(cs) % 6], bl, len(cs) // 6 % 6, len(cs)))
    chk.run_cases("extend", cs, extend_case, nontrivial=None)

    items = []
    for ty in TYPES:
        for s in shapes:
            if 0 in s and len(s) > 2:
                continue
            for j in range(6 if t else 2):
                items.append((ty, s, (ty,), len(items) * (1 + j)))
    for a in ("i4", "i8", "f4", "f8"):
        for s in [(), (1,), (3,), (2, 2), (2, 1, 3), (1, 2, 1, 2), (2,) * 5, (2,) * 6, (2,) * 7]:
            for j in range(3):
                items.append((a, s, ("i4", "i8", "f4", "f8"), len(items)))
    chk.run_cases("attributes", [items[i:i + 30] for i in range(0, len(items), 30)], attribute_case)

    cs = [(ty, s, o, opt, k) for ty in TYPES for k, s in enumerate([(), (1,), (4,), (0, 2), (2, 3), (3, 1, 2), (2, 2, 2, 2), (1, 2, 1, 2, 2), (2,) * 6, (2,) * 7]) for o in "<>" for opt in range(5)]
    chk.run_cases("foreign", cs, foreign_case)

    cs = []
    some = [(), (1,), (3,), (2, 3), (3, 2), (2, 2, 2)]
    for ta in TYPES:
        for sa in some:
            for tb in TYPES:
                for sb in some:
                    bad_type = ta != tb if ta[0] != "S" or tb[0] != "S" else int(ta[1:]) > int(tb[1:])
                    ea, eb = [n for n in sa if n > 1], [n for n in sb if n > 1]
                    fits = (len(sa) == len(sb) and all(x <= y for x, y in zip(sa, sb))) or (len(ea) == len(eb) and all(x <= y for x, y in zip(ea, eb)))
                    if bad_type or not fits:
                        if t or ta == tb or sa == sb:
                            cs.append(("read", (ta, sa), (tb, sb), len(cs)))
    for ta in ("i4", "f8", "S7"):
        for sb in some:
            for kd in ("write again", "attribute again"):
                cs += [(kd, (ta, (3,)), (ta, sb), k) for k in (0, 1)]
        for st, ct, sb in (([2], [3], (3,)), ([4], [1], (1,)), ([1], [4], (4,)), ([1], [3], (2,)), ([], [], (3,)), ([1], [3], (3, 2)), ([0], [2], (2,))):
            cs.append(("read section", (ta, (3,)), (st, ct, sb), len(cs)))
            if not (st == [1] and ct == [3] and sb == (3,)):
                cs.append(("write section", (ta, (3,)), (st, ct, sb, ta), len(cs)))
        for st, ct, sb in (([1, 1], [3, 3], (3, 3)), ([2, 2], [2, 2], (2, 2)), ([1], [2], (2,)), ([1, 1], [3, 2], (3, 2)), ([1, 1], [3, 2], (3,)), ([1, 1], [2, 2], (4,))):
            cs.append(("read section", (ta, (2, 3)), (st, ct, sb), len(cs)))
            cs.append(("write section", (ta, (2, 3)), (st, ct, sb, ta), len(cs)))
        for tb in TYPES:
            if tb[0] != ta[0] or (tb[0] != "S" and tb != ta):
                cs.append(("write section", (ta, (3,)), ([1], [3], (3,), tb), len(cs)))
    cs.append(("write section", ("S1", (3,)), ([1], [3], (3,), "S7"), 0))
    for k in range(16):
        for ta in ("i4", "S7"):
            cs.append(("missing", (ta, (3,)), (ta, (3,)), k))
    chk.run_cases("errors", cs, error_case)

    cs = []
    for n in (1, 2, 9, 10, 11, 12, 25, 60, 130):
        for k in range(6):
            cs.append((tuple("abcdefghij"[(i + k) % 10] + ("" if i % 3 else str(i)) for i in range(n)), k))
    for n in (98, 99, 100, 101, 197, 198, 199, 200, 201, 202, 250, 253, 254, 255, 256, 257, 258, 300, 450, 499):
        for k in range(3):
            cs.append((("x" * n,), k))
            cs.append((("p", "y" * (n - 3), "q"), k))
            cs.append((tuple("d%05d" % i for i in range(n // 7)), k))
    chk.run_cases("names", cs, name_case)
    chk.assumptions = ["dataset reads into another numeric kind, and arrays which can not hold the data, are refused; attributes are read into arrays of exactly their shape (documented)", "no szip (not compiled in)"]
    chk.finish(rule="6 types (4 numeric, strings of 1 and 7 characters), every shape with dimensions 0-3 (rank 1-2), 0-2 (rank 3), 1-2 (rank 4-5, thorough to 7) and selected ones up to rank 7, 14 storage options (4 for rank above 2, thorough all), strided arrays, read back at once, after reopening and by h5py; "
                    "every section of 12 shapes (thorough 17) up to rank 7, into and from arrays of the same, greater and reduced rank and size; every third (thorough every) sequence of 3 blocks in one dimension, every pair (thorough triple) in two, up to rank 7, to extensible datasets; attributes of the same shapes, conversion between every pair of numeric kinds; "
                    "files by another program with either byte order; calls which must be refused; nested and long names; non-trivial: not scalar, every section")


if __name__ == "__main__":
    main()
