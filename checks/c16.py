"""C16: binary files viewed as HDF5 files: declarations, slices, limited number of open files"""
import itertools
import os
import pathlib
import sys
import numpy as np
from mc.framework import Check, use_repo, Violation

use_repo()
CONTENT = bytes((i * 89 + 17 + (i * i) % 31) % 256 for i in range(400))
CHK = None


def fail(x):
    raise Violation(x)


def scratch():
    d = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    if not os.path.isdir(d):
        os.makedirs(d)
        for n in range(0, 130):
            open(os.path.join(d, f"s{n}"), "wb").write(CONTENT[:n])
    return d


def decode(data, dtype, shape, endian):
    """the oracle: bytes to values"""
    dt = np.dtype(dtype)
    n = int(np.prod(shape, dtype=int))
    a = np.frombuffer(data, dtype=dt.newbyteorder(endian), count=n).reshape(shape) if n else np.zeros(shape, dt)
    return a.astype(dt)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "SU" and a.dtype.kind == b.dtype.kind:
        return a.tolist() == b.tolist()
    if a.dtype.newbyteorder("=") != b.dtype.newbyteorder("="):
        return False
    return a.astype(a.dtype.newbyteorder("<")).tobytes() == b.astype(b.dtype.newbyteorder("<")).tobytes()


# ---------------------------------------------------------------- declarations
OPS = [("D", "a", "i4", ()), ("D", "a", "f8", (2,)), ("D", "g/b", "i2", (3,)), ("D", "g/h/c", "S3", (2,)), ("D", "g", "u1", (1,)), ("D", "a/x", "u1", ()),
       ("D", "/z", "f4", (0,)), ("D", "m", "u2", (2, 2)), ("A", "t", "i4", ()), ("A", "a/t", "f4", (2,)), ("A", "g/t", "u8", ()), ("A", "g/b/t", "i2", ()),
       ("A", "g/u", "S2", ()), ("S", 3), ("R", "i2", (2,)), ("E", ">"), ("T",), ("B", True)]


class Unspecified(Exception):
    pass


class Model:
    """groups: {path: None}, blocks: {(kind, path): (offset, dtype, shape)}"""
    def __init__(self):
        self.off = 0
        self.endian = "<"
        self.groups = {""}
        self.sets = {}
        self.attrs = {}
        self.spans = []

    def nb(self, dt, sh):
        return np.dtype(dt).itemsize * int(np.prod(sh, dtype=int))

    def need_groups(self, comps):
        """make the groups of a path, like mkdir -p; error if one of them is a dataset"""
        for i in range(1, len(comps) + 1):
            p = "/".join(comps[:i])
            if p in self.sets:
                raise KeyError(p)
            self.groups.add(p)

    def declare(self, kind, path, dt, sh):
        comps = path.strip("/").split("/")
        parent, name = comps[:-1], comps[-1]
        full = "/".join(comps)
        if kind == "D":
            self.need_groups(parent)
            if full in self.sets or full in self.groups:
                raise KeyError(full)
            self.sets[full] = (self.off, dt, sh)
        else:
            if "/".join(parent) not in self.sets:
                if any("/".join(comps[:i]) in self.sets for i in range(1, len(parent))):
                    raise Unspecified()          # a path through a dataset
                self.need_groups(parent)
            if full in self.attrs:
                raise KeyError(full)
            self.attrs[full] = (self.off, dt, sh)
        self.spans.append((self.off, self.nb(dt, sh)))
        self.off += self.nb(dt, sh)

    def used(self, size):
        p = 0
        for o, n in sorted(self.spans, key=lambda s: s[0]):
            if o != p:
                return False
            p += n
        return p == size


def form(sh, k):
    """A shape, with dimensions as they come from the headers of files"""
    return (lambda: sh, lambda: tuple(np.uint64(x) for x in sh), lambda: list(sh), lambda: tuple(np.int32(x) for x in sh), lambda: np.array(sh, dtype="u4") if sh else sh)[k % 5]()


def apply(f, m, op):
    if op[0] in "DA":
        exp = None
        try:
            m.declare(op[0], *op[1:])
        except KeyError:
            exp = KeyError
        try:
            (f.add_dataset if op[0] == "D" else f.add_attribute)(op[1], np.dtype(op[2]), form(op[3], m.off)) if op[3] or m.off % 2 else \
                (f.add_dataset if op[0] == "D" else f.add_attribute)(op[1], op[2])
        except (KeyError, IOError):     # (a duplicate attribute past the end of the file is noticed while reading it)
            if exp is None:
                fail(f"{op} was refused")
        else:
            if exp is not None:
                fail(f"{op} was accepted, though the name is taken")
    elif op[0] == "S":
        f.skip_bytes(op[1] if m.off % 2 else np.uint64(op[1]))
        m.off += op[1]
    elif op[0] == "R":
        n = m.nb(op[1], op[2])
        v = f.read_and_skip(op[1], form(op[2], m.off))
        if not same(v, decode(CONTENT[m.off:m.off + n], op[1], op[2], m.endian)):
            fail(f"{op} at offset {m.off} returned {v!r}")
        m.spans.append((m.off, n))
        m.off += n
    elif op[0] == "E":
        f.set_endian(op[1])
        m.endian = op[1]
    elif op[0] == "T":
        f.toggle_byteswap()
        m.endian = "<" if m.endian == ">" else ">"
    elif op[0] == "B":
        f.enable_byteswap(op[1])
        m.endian = ">" if op[1] else "<"


def child_names(m, g):
    pre = g + "/" if g else ""
    return sorted(p[len(pre):] for p in list(m.sets) + [x for x in m.groups if x] if p.startswith(pre) and p != g and "/" not in p[len(pre):])


def decl_case(case):
    try:
        return decl_case1(case)
    except Unspecified:
        return {"counts": {"unspecified": 1}}


def decl_case1(case):
    from virgo.util.read_binary import BinaryFile
    d = scratch()
    ops = [OPS[i] for i in case]
    # what the declarations cover is known from a first pass of the model alone
    m = Model()
    reads_at = 0
    for op in ops:
        if op[0] == "R":
            n = m.nb(op[1], op[2])
            m.spans.append((m.off, n))
            m.off += n
            reads_at = m.off
        elif op[0] in "DA":
            try:
                m.declare(op[0], *op[1:])
            except KeyError:
                pass
        elif op[0] == "S":
            m.off += op[1]
    total = max([o + n for o, n in m.spans], default=0)
    for size in sorted({max(total, 1), total, max(total - 1, 0), total + 1}):
        if size < reads_at:
            continue
        f = BinaryFile(os.path.join(d, f"s{size}"))
        m = Model()
        for op in ops:
            apply(f, m, op)
        look(f, m, size, ops)
        f.close()
    return None


def look(f, m, size, ops):
    def expect(get, blk, what):
        o, dt, sh = blk
        n = m.nb(dt, sh)
        if o + n > size:
            try:
                v = get()
            except IOError:
                return
            fail(f"{what} lies past the end of the file ({size} bytes) but reads {v!r}")
        v = get()
        e = decode(CONTENT[o:o + n], dt, sh, m.endian)
        if not same(v, e):
            fail(f"{what} reads {v!r}, but the file has {e!r} at offset {o}")
    for p, blk in m.sets.items():
        for path in (p, "/" + p):
            ds = f[path]
            if tuple(ds.shape) != tuple(blk[2]) or ds.dtype != np.dtype(blk[1]):
                fail(f"dataset {p} has shape {ds.shape} and type {ds.dtype}")
        expect(lambda: ds[...], blk, f"dataset {p}")
        if p not in f:
            fail(f"{p!r} in f is false")
        if "/" in p:
            g, n = p.rsplit("/", 1)
            if f[g][n] is not ds:
                fail(f"f[{g!r}][{n!r}] is another object than f[{p!r}]")
    for p, blk in m.attrs.items():
        owner, name = p.rsplit("/", 1) if "/" in p else ("", p)
        o = f[owner] if owner else f
        expect(lambda: o.attrs[name], blk, f"attribute {p}")
    for g in m.groups:
        o = f[g] if g else f
        names = child_names(m, g)
        if sorted(o.keys()) != names or len(o) != len(names) or sorted(iter(o)) != names:
            fail(f"group {g!r} has members {sorted(o.keys())}, declared were {names}")
    for g in list(m.groups) + list(m.sets):
        o = f[g] if g else f
        at = sorted(p[len(g) + 1 if g else 0:] for p in m.attrs if (p.startswith(g + "/") if g else True) and "/" not in p[len(g) + 1 if g else 0:])
        if sorted(o.attrs.keys()) != at or len(o.attrs) != len(at):
            fail(f"{g!r} has attributes {sorted(o.attrs.keys())}, declared were {at}")
        for x in ("nope", "t", "u"):
            if not any(p + "/" + x in m.attrs for p in [g] if g) and not (not g and x in m.attrs) and x in o.attrs:
                fail(f"{x!r} in attrs of {g!r} is wrong")
    for q in ("nope", "g/nope", "nope/b", "a/nope"):
        if q in f:
            fail(f"{q!r} in f is true")
        try:
            f[q]
        except KeyError:
            pass
        else:
            fail(f"f[{q!r}] did not fail")
    u = f.all_bytes_used()
    if bool(u) != m.used(size):
        fail(f"all_bytes_used() is {u} for a file of {size} bytes with blocks {m.spans}")
    if not m.used(size):
        try:
            f.hash()
        except IOError:
            pass
        else:
            fail("hash of a file not all of whose bytes belong to a block")


# ---------------------------------------------------------------- slices
STRUCT = np.dtype([("i", "i4"), ("x", "f8", (2,)), ("s", "S3"), ("j", "i2")])
DTYPES = ["i4", "f8", "u1", "i8", "f4", "S3", "c8", "?", "u2", "U2", ">i4", ">f8", STRUCT, STRUCT.newbyteorder(">"), np.dtype([("a", "<i4"), ("b", ">i4")])]
SHAPES = [(), (5,), (3, 2), (2, 3, 2), (0,), (0, 2), (1,)]
KEYS1 = [(), Ellipsis, 0, -1, 2, slice(None), slice(1, None), slice(None, None, 2), slice(None, None, -1), slice(1, 1), slice(-2, None), slice(3, 0, -2), slice(1, 100), [0, 0], [], (Ellipsis, 0),
         (0, 1), (slice(None), 1), (slice(None, None, -1), slice(0, 1)), (1, Ellipsis), (0, 1, 1), (slice(0, 1), slice(1, 3), -1), None, 9, "mask", "i", "nope"]


def slice_case(case):
    from virgo.util.read_binary import BinaryFile
    idt, sh, endian, lead = case
    dt = np.dtype(DTYPES[idt])
    n = int(np.prod(sh, dtype=int)) * dt.itemsize
    if dt.kind == "?" or dt.kind == "b":
        raw = bytes(i % 2 for i in range(n))
    elif dt.kind == "U":
        raw = np.asarray([chr(97 + i % 20) + chr(0x100 + i) for i in range(n // 8)], dtype=endian + "U2").tobytes()
    else:
        raw = CONTENT[3:3 + n]
    path = os.path.join(scratch(), "slice")
    with open(path, "wb") as o:
        o.write(b"\x55" * lead + raw)
    exp = decode(raw, dt, sh, endian)
    f = BinaryFile(path)
    if endian == "=" and lead:
        f.enable_byteswap(False)
    else:
        f.set_endian(endian)
    f.skip_bytes(lead)
    f.add_dataset("x", dt, sh)
    ds = f["x"]
    got = []
    for key in KEYS1:
        k = key
        if k == "mask" if isinstance(k, str) else False:
            k = np.arange(int(np.prod(sh, dtype=int))).reshape(sh) % 2 == 1
        try:
            e = exp[k]
        except Exception as ex:
            e = type(ex)
        try:
            v = ds[k]
        except Exception as ex:
            v = type(ex)
        if isinstance(e, type):
            if v is not e:
                fail(f"{dt} {sh} [{key!r}]: {v!r}, numpy raises {e.__name__}")
            continue
        if isinstance(v, type):
            fail(f"{dt} {sh} [{key!r}]: raised {v.__name__}")
        if not same(v, e):
            fail(f"{dt} {sh} [{key!r}]: {v!r}, the file has {e!r}")
        if isinstance(v, np.ndarray):
            if v.dtype != e.dtype:
                fail(f"{dt} {sh} [{key!r}]: type {v.dtype}, declared {e.dtype}")
            got.append((v, np.array(e, copy=True)))
    for a in (np.asarray(ds), np.array(ds), ds.value):
        if not same(a, exp):
            fail(f"{dt} {sh}: conversion to an array gives {a!r}, the file has {exp!r}")
    if dt.kind in "iufc" and not same(np.asarray(ds, dtype=np.complex128), exp.astype(np.complex128)):
        fail("conversion to an array of another type")
    if ds.size != exp.size or ds.shape != exp.shape:
        fail("size or shape")
    if sh:
        if len(ds) != sh[0] or ds.len() != sh[0]:
            fail("length")
        it = list(ds)
        if len(it) != sh[0] or not all(same(a, b) for a, b in zip(it, exp)):
            fail(f"iteration gives {it!r}")
    else:
        for fn in (len, list):
            try:
                fn(ds)
            except TypeError:
                pass
            else:
                fail(f"{fn.__name__} of a scalar dataset")
    f.close()
    del f, ds
    for v, e in got:        # results do not depend on the file remaining open, and belong to the caller
        if not same(v, e):
            fail("an array returned earlier has changed after the file was closed")
        if v.size:
            v[...] = np.zeros((), v.dtype)
    if open(path, "rb").read() != b"\x55" * lead + raw:
        fail("the file has changed")
    return {"counts": {"nontrivial": int(n > 0)}}


# ---------------------------------------------------------------- open files
def histories(nfiles):
    ops = []
    for f in range(nfiles):
        ops += [("r", f, 0), ("r", f, 1), ("c", f), ("x", f), ("w", f)]
    ops += [("r2", 0), ("r2", 1), ("cd", 0), ("g", 1)]
    return ops


def make(path):
    from virgo.util.read_binary import BinaryFile
    f = BinaryFile(path)
    f.set_endian(">")
    f.add_attribute("h", "u4")
    f.add_dataset("d0", "u4", (3,))
    f.add_dataset("g/d1", "u2", (2, 2))
    f.add_attribute("g/d1/at", "u2")
    return f


def blob(f, ver):
    return np.asarray([f * 1000 + ver], ">u4").tobytes() + np.asarray([f * 1000 + ver * 10 + i for i in range(3)], ">u4").tobytes() + \
        np.asarray([f * 100 + ver * 10 + i for i in range(5)], ">u2").tobytes()


def nopen(d):
    s = set()
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            continue
        if p.startswith(d):
            s.add(p)
    return len(s)


def history_case(case):
    nfiles, maxf, hist = case[:3]
    names = case[3] if len(case) > 3 else "absolute"
    d = os.path.join(scratch(), "h" + names)
    os.makedirs(d, exist_ok=True)
    cwd = os.getcwd()
    try:
        return history_run(nfiles, maxf, hist, names, d)
    finally:
        os.chdir(cwd)


def history_run(nfiles, maxf, hist, names, d):
    from virgo.util.read_binary import BinaryDataset
    known = hasattr(BinaryDataset, "max_files")
    if known:
        BinaryDataset.max_files = maxf
    ops = histories(nfiles)
    ver = [0] * nfiles
    dirs = [os.path.join(d, f"d{i}") for i in range(nfiles)]
    if names != "absolute":
        for x in dirs + [os.path.join(d, "other")]:
            os.makedirs(x, exist_ok=True)
    paths = [os.path.join(d, f"f{i}") if names == "absolute" else os.path.join(dirs[i], "f") for i in range(nfiles)]

    def mk(i):
        """The file by its absolute name, or the same relative name in different directories"""
        if names == "absolute":
            return make(paths[i])
        os.chdir(dirs[i])
        f = make({"relative": "f", "dotted": "./f", "up": f"../d{i}/f", "path": pathlib.Path("f")}[names])
        os.chdir(os.path.join(d, "other"))
        return f
    for i, p in enumerate(paths):
        with open(p, "wb") as o:
            o.write(blob(i, 0))
    objs = [mk(i) for i in range(nfiles)]
    second = [None, None]
    kept = []

    def check(v, e, op):
        if not same(v, e):
            fail(f"history {[ops[k] for k in hist]} with at most {maxf} open files: {op} reads {np.asarray(v).tolist()}, the file has {np.asarray(e).tolist()}")
        if isinstance(v, np.ndarray):
            kept.append((v, np.array(e)))
    for k in hist:
        op = ops[k]
        i = op[1]
        if op[0] == "r":
            if op[2] == 0:
                check(objs[i]["d0"][...], np.asarray([i * 1000 + ver[i] * 10 + j for j in range(3)], "u4"), op)
            else:
                check(objs[i]["g/d1"][1], np.asarray([i * 100 + ver[i] * 10 + j for j in (2, 3)], "u2"), op)
        elif op[0] == "g":
            check(objs[i].attrs["h"], np.asarray(i * 1000 + ver[i], "u4"), op)
            check(objs[i]["g/d1"].attrs["at"], np.asarray(i * 100 + ver[i] * 10 + 4, "u2"), op)
        elif op[0] == "r2":
            if second[i] is None:
                second[i] = mk(i)
            check(second[i]["d0"][1:], np.asarray([i * 1000 + ver[i] * 10 + j for j in (1, 2)], "u4"), op)
        elif op[0] == "c":
            objs[i].close()
        elif op[0] == "cd":
            objs[i]["d0"].close()
        elif op[0] == "x":
            objs[i] = None
            objs[i] = mk(i)
        elif op[0] == "w":
            ver[i] += 1
            with open(paths[i], "r+b") as o:
                o.write(blob(i, ver[i]))
        if known and nopen(d) > maxf:
            fail(f"history {[ops[k] for k in hist]}: {nopen(d)} files open at {op}, the limit is {maxf}")
    for v, e in kept:
        if not same(v, e):
            fail(f"history {[ops[k] for k in hist]}: an array read earlier has changed")
    for o in objs + second:
        if o is not None:
            o.close()
    if nopen(d):
        fail(f"history {[ops[k] for k in hist]}: a file is still open after all were closed")
    del objs, second
    if hasattr(BinaryDataset, "file_cache"):
        BinaryDataset.file_cache.clear()
    return {"counts": {"transitions": len(hist), "nontrivial": int(len({ops[k][1] for k in hist if ops[k][0][0] == "r"}) > 1)}}


def many_case(case):
    """more files than the default limit, in several orders"""
    from virgo.util.read_binary import BinaryDataset
    n, order = case
    d = os.path.join(scratch(), "many")
    os.makedirs(d, exist_ok=True)
    objs = []
    for i in range(n):
        p = os.path.join(d, f"f{i}")
        with open(p, "wb") as o:
            o.write(blob(i, 0))
        objs.append(make(p))
    lim = getattr(BinaryDataset, "max_files", None)
    seq = {"up": list(range(n)) * 3, "down": list(range(n))[::-1] * 2, "zigzag": [i if k % 2 else n - 1 - i for k in range(3) for i in range(n)],
           "back": [j for i in range(n) for j in (i, 0, i)]}[order]
    for k, i in enumerate(seq):
        v = objs[i]["d0"][...] if k % 3 else objs[i]["g"]["d1"][...]
        e = np.asarray([i * 1000 + j for j in range(3)], "u4") if k % 3 else np.asarray([[i * 100 + j, i * 100 + j + 1] for j in (0, 2)], "u2")
        if not same(v, e):
            fail(f"file {i} reads {v.tolist()}")
        if lim is not None and nopen(d) > lim:
            fail(f"{nopen(d)} files open, the limit is {lim}")
    for o in objs:
        o.close()
    return None


def large_case(case):
    """Blocks beyond and across 2 and 4 GB in a sparse file"""
    from virgo.util.read_binary import BinaryFile
    sizes, dt, form_, endian, k = case
    path = os.path.join(CHK.scratch.path, f"large{os.getpid()}")
    item = np.dtype(dt).itemsize
    try:
        off, places = 0, []
        with open(path, "wb") as f:
            for i, n in enumerate(sizes):
                if n < 0:
                    off -= n
                    continue
                places.append((f"g/d{i}", off, n))
                for j in {0, n // 2, n - 1}:
                    f.seek(off + j * item)
                    f.write(np.asarray(i * 10 + (j > 0) + (j == n - 1) + 1, dtype=dt).astype(np.dtype(dt).newbyteorder(endian)).tobytes())
                off += n * item
            f.truncate(off)
        b = BinaryFile(path)
        b.set_endian(endian)
        for i, n in enumerate(sizes):
            if n < 0:
                b.skip_bytes((int, np.int64, np.uint32, np.uint64)[k % 4](-n))
            elif form_ == "2d" and n % 2 == 0:
                b.add_dataset(f"g/d{i}", np.dtype(dt), ((np.int32 if n < 2**32 else int)(n // 2), 2))
            else:
                b.add_dataset(f"g/d{i}", np.dtype(dt), [lambda: (n,), lambda: [np.int32(n)], lambda: (np.uint32(n),), lambda: np.array([n], dtype="i8")][0 if n >= 2**31 else (k + i) % 4]())
        for name, o, n in places:
            i = int(name[3:])
            d = b[name]
            flat = (lambda j: d[j // 2, j % 2]) if len(d.shape) == 2 else (lambda j: d[j])
            for j in {0, n // 2, n - 1}:
                w = i * 10 + (j > 0) + (j == n - 1) + 1
                if flat(j) != np.asarray(w, dtype=dt):
                    fail(f"blocks of {sizes} elements of type {dt} (negative: bytes skipped): element {j} of the block at byte {o} is {flat(j)}, stored was {w}")
        if b.offset != off or b.all_bytes_used() != (not any(n < 0 for n in sizes)):
            fail(f"blocks of {sizes} elements of type {dt}: end at {b.offset}, should be {off}; all bytes used: {b.all_bytes_used()}")
        b.add_dataset("past", np.dtype("u1"), (1,))
        try:
            b["past"][...]
        except IOError:
            pass
        else:
            fail(f"reading past the end at {off} is accepted")
        b.close()
    finally:
        os.unlink(path)
    return None


def main():
    global CHK
    chk = CHK = Check("C16", "model_checking")
    if chk.replay_requested({"declarations": decl_case, "slices": slice_case, "histories": history_case, "many": many_case, "large": large_case}):
        return
    t = chk.thorough
    n = len(OPS)
    decl = [c for d in range(0, 5 if t else 4) for c in itertools.product(range(n), repeat=d)]
    if t:
        decl += [c for c in itertools.product(range(n), repeat=5) if sorted(c)[0] == c[0] or c[0] in (0, 2, 9, 11)][::3]
    else:      # longer ones: those that begin with a declaration in a group or of an attribute
        decl += [(a,) + c for a in (0, 2, 9, 11, 13) for c in itertools.product(range(n), repeat=3)]
    chk.run_cases("declarations", decl, decl_case, nontrivial=lambda c: any(OPS[i][0] in "DA" for i in c))
    sl = [(i, sh, e, lead) for i in range(len(DTYPES)) for sh in SHAPES for e in "<>=" for lead in (0, 5)]
    chk.run_cases("slices", sl, slice_case)
    hs = []
    for nfiles, maxf, depth in ((2, 1, 4), (3, 2, 4), (3, 1, 3), (3, 3, 3)) if not t else ((2, 1, 5), (3, 2, 5), (3, 1, 4), (3, 3, 4), (4, 2, 4), (4, 3, 4)):
        ops = histories(nfiles)
        for h in itertools.product(range(len(ops)), repeat=depth):
            if ops[h[-1]][0] in ("c", "x", "w", "cd"):
                continue
            hs.append((nfiles, maxf, h))
        # and long ones made by going round: every loop of up to 3 operations, repeated
        for ln in (1, 2, 3) if nfiles > 2 else (1, 2):
            for lp in itertools.product(range(len(ops)), repeat=ln):
                if any(ops[k][0] == "r" for k in lp):
                    hs.append((nfiles, maxf, (lp * 4)[:9]))
    # files of the same relative name in different directories
    ops = histories(2)
    hs += [(2, m, h, nm) for nm in ("relative", "dotted", "up", "path") for m in (1, 2) for h in itertools.product(range(len(ops)), repeat=4 if t else 3) if ops[h[-1]][0] in ("r", "g", "r2")]
    res = chk.run_cases("histories of access to several files", hs, history_case)
    chk.run_cases("many files", [(m, o) for m in (31, 32, 33, 40, 70) for o in ("up", "down", "zigzag", "back")], many_case)
    G = 2**30
    lg = [((3, G // 2 // np.dtype(d).itemsize * 4 + 3, 5), d) for d in ("u1", "i4", "f8", "u2", "i8", "f4")] + [((2, -(2**31 + 5), 7, 300000000, 4), "f8"), ((2, -(2**31 - 1), 7), "u1"), ((2, -(2**32 - 1), 6), "i4"), ((300000000, 300000002, 9), "f4"),
         ((2**31 + 2, 2), "u1"), ((2**32 + 2, 4), "u1"), ((2**32, 4, -77, 2**31, 6), "u2")]
    chk.run_cases("large files", [(s, d, f, e, k) for k, ((s, d), f, e) in enumerate(itertools.product(lg, ("1d", "2d"), "<>="))
                                  if all(-n < 2**32 for n in s) and (max(s) < 2**31)] + [(s, d, "2d", e, 4 * k + 1) for k, (s, d) in enumerate(lg) if max(s) >= 2**31 for e in "<>"], large_case)
    chk.assumptions = ["files are changed by others in place only; a file is not replaced or cut short while open"]
    chk.finish(rule="every sequence of up to 3 (thorough: 4, a third of those of 5) of 18 declaration operations (and of 4 for five first operations), each on files of the covered size and one byte less and more; every slice of a table for 15 types, 7 shapes, 3 byte orders; "
                    "every history of 4 (thorough: 5) operations on 2-3 (4) files with at most 1-3 open, and all loops of up to 3 operations repeated; the same with equal relative names in different directories; blocks and skips of 2 to 4 GB in sparse files; non-trivial histories read two different files",
               extra={"states": len(decl) + len(hs), "transitions": chk.cov.get("transitions", 0), "traces_validated_against_impl": len(decl) + len(hs)})


if __name__ == "__main__":
    main()
