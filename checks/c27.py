"""C27: histories of calls of the Fortran HDF5 wrapper.

Explicit-state model of the files and handles. Every transition of every reachable state of the model (up to a number
of states, in order of depth) is executed by the compiled wrapper, after a shortest history which reaches the state, and
everything which can be observed afterwards is compared with the model, through the wrapper and in the files."""
import itertools
import os
import shutil
import numpy as np
from mc.framework import Check, use_repo, Violation
from mc import fwrap

use_repo()
CHK = None
EXE = None
DT = {"i": "i4", "x": "f8"}
NAMES = ("D", "g/D", "/D")
ATTRS = ("/t", "D/t", "g/t")


class Node:
    """Contents of a file"""
    def __init__(self):
        self.g = False
        self.d = {}             # "D" or "g/D" -> [kind, values, dirty]
        self.at = {}            # "/t", "D/t", "g/t" -> value
        self.mode = None        # access of the first handle by which it is open
        self.nopen = 0

    def key(self):
        return (self.g, tuple(sorted((n, k, len(v)) for n, (k, v) in self.d.items())), tuple(sorted(self.at)), self.mode, self.nopen)


class Model:
    """Files, handles, and what was read last"""
    def __init__(self, nslots):
        self.disk = {}                          # name -> Node
        self.slot = [None] * nslots             # (Node, name used, read only)
        self.used = [False] * nslots
        self.last = None                        # (name used for the file, dataset name, node, changed since)
        self.count = 0
        self.auto = True
        self.ever = False

    def key(self):
        ids = {}
        nodes = []
        for n in [self.disk[f] for f in sorted(self.disk)] + [s[0] for s in self.slot if s] + ([self.last[2]] if self.last else []):
            if id(n) not in ids:
                ids[id(n)] = len(ids)
                nodes.append(n.key())
        return (tuple((f, ids[id(n)]) for f, n in sorted(self.disk.items(), key=lambda x: x[0])), tuple((ids[id(s[0])], s[1], s[2]) if s else None for s in self.slot), tuple(nodes),
                (self.last[0], self.last[1], ids[id(self.last[2])], self.last[3]) if self.last else None, self.auto, self.ever and not any(self.slot))

    def vals(self, n):
        self.count += 1
        return [self.count * 10 + i for i in range(n)]

    def refuses(self, op):
        """Whether a call is refused, None if it is not defined"""
        k = op[0]
        if k == "auto":
            return None if any(self.slot) or self.ever else False
        if k == "mv":
            return False if op[1] in self.disk and op[1] != op[2] else None
        s = self.slot[op[1]]
        if k in ("create", "open"):
            if s or not all(self.slot[:op[1]]):
                return None         # the lowest slot is used
            f = op[2].replace("./", "")
            if k == "create":
                return f in self.disk and self.disk[f].nopen > 0
            return f not in self.disk or (not op[3] and self.disk[f].mode == "r")
        if not s:
            return True if not self.used[op[1]] or not any(self.slot) else None
        node, _, ro = s
        n = op[2].lstrip("/") if len(op) > 2 else None
        if k == "close":
            return False
        if k == "group":
            return ro
        if k in ("new", "ext"):
            return ro or n in node.d
        if k == "over":
            return ro
        if k == "sec":
            return ro or (n in node.d and node.d[n][0][0] == "i" and len(node.d[n][1]) < 3)
        if k == "read":
            return n not in node.d
        if k == "part":
            return n not in node.d or len(node.d[n][1]) < 2
        parent = op[2].rsplit("/", 1)[0]
        missing = (parent == "g" and not node.g) or (parent == "D" and "D" not in node.d)
        if k == "wattr":
            return ro or missing or (not op[3] and op[2] in node.at)
        if k == "rattr":
            return missing or op[2] not in node.at
        raise KeyError(k)

    def touch(self, node, n):
        if self.last and self.last[2] is node and self.last[1].lstrip("/") == n:
            self.last = self.last[:3] + (True,)

    def apply(self, op, s=None, names=None):
        """Do a call which is not refused. s: script to which it is added. Returns the expected result"""
        k = op[0]
        names = names or (lambda f: f)
        if k == "auto":
            self.auto = False
            if s:
                s.auto_open(False)
            return None
        if k == "mv":
            if s:
                s.rename(names(op[1]), names(op[2]))
            self.disk[op[2]] = self.disk.pop(op[1])
            return 0
        i = op[1]
        if k in ("create", "open"):
            f = op[2].replace("./", "")
            ro = k == "open" and bool(op[3])
            if k == "create":
                if f in self.disk:
                    self.disk[f].__init__()
                else:
                    self.disk[f] = Node()
                if s:
                    s.create(i, names(op[2]))
            elif s:
                s.open(i, names(op[2]), True if ro else (None, False)[self.count % 2])
            node = self.disk[f]
            node.mode = node.mode or ("r" if ro else "w")
            node.nopen += 1
            self.slot[i] = (node, op[2], ro)
            self.used[i] = self.ever = True
            return None
        node, fname, ro = self.slot[i]
        if k == "close":
            node.nopen -= 1
            if node.nopen == 0:
                node.mode = None
            if self.last and self.last[0] == fname:
                self.last = None
            self.slot[i] = None
            if s:
                s.close(i)
            return None
        if k == "group":
            node.g = True
            if s:
                s.group(i, op[2])
            return None
        n = op[2].lstrip("/")
        if k in ("new", "ext", "over", "sec"):
            if n.startswith("g/"):
                node.g = True
            if k == "sec" and n in node.d:
                kind, old = node.d[n]
                v = self.vals(2)
                node.d[n] = (kind, old[:1] + v + old[3:])
                kw = dict(start=[2], count=[2])
            elif k == "sec":
                v = self.vals(2)
                node.d[n] = ("i", [None] + v)          # the first element is never written
                kind = "i"
                kw = dict(start=[2], count=[2])
            else:
                kw = {}
                kind = "i" if k == "new" else "x" if k == "ext" else op[3]
                v = self.vals(2 if k != "over" else 1 + self.count % 3)
                if k == "over":
                    kw["overwrite"] = True
                    if n == "D":
                        node.at.pop("D/t", None)
                    self.touch(node, n)
                elif self.count % 2:
                    kw["overwrite"] = False
                if kind == "x":
                    kw["extensible"] = True
                    if self.count % 3 == 0:
                        kw["gzip"] = 1
                node.d[n] = (kind, v)
            if s:
                s.write(i, op[2], np.array(v, dtype=DT[kind]), **kw)
            return None
        if k in ("read", "part"):
            kind, v = node.d[n]
            self.last = (fname, op[2], node, False)
            if s:
                if k == "read":
                    s.read(i, op[2], np.zeros(len(v), dtype=DT[kind]))
                else:
                    s.read(i, op[2], np.zeros(1, dtype=DT[kind]), start=[2], count=[1])
            return list(v) if k == "read" else [v[1]]
        if k == "wattr":
            v = self.vals(1)[0]
            node.at[op[2]] = v
            if s:
                s.wattr(i, op[2], np.array(v, dtype="i8"), overwrite=True if op[3] else None)
            return None
        if k == "rattr":
            if s:
                s.rattr(i, op[2], np.zeros((), dtype="i8"))
            return node.at[op[2]]
        raise KeyError(k)

    def emit(self, op, s, names):
        """Add a call which is refused"""
        k, i = op[0], op[1]
        if k == "create":
            s.create(i, names(op[2]))
        elif k == "open":
            s.open(i, names(op[2]), True if op[3] else None)
        elif k == "close":
            s.close(i)
        elif k == "group":
            s.group(i, op[2])
        elif k in ("new", "sec"):
            s.write(i, op[2], np.array([-5, -6], dtype="i4"), **(dict(start=[2], count=[2]) if k == "sec" else {}))
        elif k == "ext":
            s.write(i, op[2], np.array([-5, -6], dtype="f8"), extensible=True)
        elif k == "over":
            s.write(i, op[2], np.array([-5, -6], dtype=DT[op[3]]), overwrite=True)
        elif k in ("read", "part"):
            kind = "i"
            if self.slot[i] and op[2].lstrip("/") in self.slot[i][0].d:
                kind = self.slot[i][0].d[op[2].lstrip("/")][0]
            s.read(i, op[2], np.zeros(3, dtype=DT[kind]), **(dict(start=[2], count=[1]) if k == "part" else {}))
        elif k == "wattr":
            s.wattr(i, op[2], np.array(-5, dtype="i8"), overwrite=True if op[3] else None)
        elif k == "rattr":
            s.rattr(i, op[2], np.zeros((), dtype="i8"))

    def observe(self, s, expect, names):
        """Everything visible through the open handles, then close them"""
        order = [i for i in range(len(self.slot)) if self.slot[i]]
        if self.last:
            # what was read last comes first
            order.sort(key=lambda i: (self.slot[i][1] != self.last[0], self.slot[i][0] is self.last[2]))
        for i in order:
            node = self.slot[i][0]
            ds = sorted(node.d)
            if self.last:
                ds.sort(key=lambda n: self.last[1].lstrip("/") != n)
            for n in ds:
                kind, v = node.d[n]
                for name in ([self.last[1]] if self.last and self.last[1].lstrip("/") == n else []) + [n, "/" + n]:
                    expect[len(s.want)] = (f"reading {name} with handle {i}", list(v))
                    s.read(i, name, np.zeros(len(v), dtype=DT[kind]))
                expect[len(s.want)] = (f"dimensions of {n} with handle {i}", (1, len(v)))
                s.dims(i, n)
                expect[len(s.want)] = (f"type of {n} with handle {i}", ("INTEGER", 4) if kind == "i" else ("REAL", 8))
                s.type(i, n)
            for a, v in sorted(node.at.items()):
                expect[len(s.want)] = (f"attribute {a} with handle {i}", v)
                s.rattr(i, a, np.zeros((), dtype="i8"))
            for what, where, want in (("datasets", "/", [n for n in node.d if "/" not in n]), ("groups", "/", ["g"] if node.g else []), ("attributes", "/", ["t"] if "/t" in node.at else [])):
                expect[len(s.want)] = (f"{what} in {where} with handle {i}", want)
                s.listing(what, i, where)
            if node.g:
                for what, want in (("datasets", ["D"] if "g/D" in node.d else []), ("groups", []), ("attributes", ["t"] if "g/t" in node.at else [])):
                    expect[len(s.want)] = (f"{what} in g with handle {i}", want)
                    s.listing(what, i, "g")
            if "D" in node.d:
                expect[len(s.want)] = (f"attributes of D with handle {i}", ["t"] if "D/t" in node.at else [])
                s.listing("attributes", i, "D")
        for i in order[::1 if self.count % 2 else -1]:
            s.close(i)
        if not self.auto:
            s.auto_open(True)


def agree(got, want):
    """Equal, except where nothing was written"""
    if isinstance(want, list) and None in want:
        return len(got) == len(want) and all(w is None or g == w for g, w in zip(got, want))
    return got == want


def text(h):
    return "; ".join(" ".join(str(x) for x in op) for op in h)


def plain(code, r):
    """Result in the form of the model"""
    if code in (6, 8):
        return r.tolist()
    if code == 9:
        return (r[0], r[1][0]) if r[0] == 1 else r
    if code in (11, 12, 13):
        return r[2][:-1] if r[0] == r[1] and r[2][-1] == "???" else r
    return r


def compare_file(path, node):
    import h5py
    if node is None:
        return "exists" if os.path.exists(path) else None
    if not os.path.exists(path):
        return "does not exist"
    with h5py.File(path, "r") as f:
        want = sorted(([n for n in node.d if "/" not in n]) + (["g"] if node.g else []))
        if sorted(f) != want:
            return f"contains {sorted(f)}, should contain {want}"
        if node.g and sorted(f["g"]) != [n[2:] for n in node.d if "/" in n]:
            return f"group g contains {sorted(f['g'])}"
        for n, (kind, v) in node.d.items():
            d = f[n]
            if d.dtype != DT[kind] or not agree(d[()].tolist(), v) or d.maxshape != ((None,) if kind == "x" else (len(v),)):
                return f"{n} is {d[()].tolist()}, {d.dtype}, {d.maxshape}, should be {v}, {DT[kind]}, {'extensible' if kind == 'x' else 'fixed'}"
        have = {a: f[a.rsplit('/', 1)[0] or "/"].attrs.get("t") for a in ATTRS if (a.rsplit('/', 1)[0] or "/") in f}
        have = {a: int(v) for a, v in have.items() if v is not None}
        if have != node.at:
            return f"attributes are {have}, should be {node.at}"
    return None


def history_case(case):
    """Run a list of histories in one process. The last call of the last one may be one which is refused"""
    nslots, hists, refused = case
    base = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    s = fwrap.Script()
    done = []
    for j, h in enumerate(hists):
        names = lambda f, j=j: ("./" if f.startswith("./") else "") + f"{f.replace('./', '')}{j}.hdf5"
        m = Model(nslots)
        expect = {}
        bad = refused and j == len(hists) - 1
        for n, op in enumerate(h[:-1] if bad else h):
            at = len(s.want)
            r = m.apply(op, s, names)
            if r is not None and len(s.want) > at:
                expect[at] = (f"call {n + 1}", r)
        if bad:
            at = len(s.want)
            m.emit(h[-1], s, names)
        else:
            m.observe(s, expect, names)
        done.append((h, m, expect, len(s.want), names))
    res, rc, out = s.run(EXE, base + "/s")
    for j, (h, m, expect, end, names) in enumerate(done):
        bad = refused and j == len(hists) - 1
        if bad:
            if len(res) > at:
                fail(f"history [{text(h)}]: the last call is accepted")
            if rc < 0 or "Segmentation" in out or "runtime error" in out:
                fail(f"history [{text(h)}]: ends with status {rc}: {' '.join(out.split())[-300:]}")
            end = at
        if len(res) < end:
            n = len(res)
            fail(f"history [{text(h)}]: {expect[n][0] if n in expect else 'a call, or closing the files,'} fails: {' '.join(out.split())[-300:]}")
        for n, (what, want) in expect.items():
            got = plain(s.want[n][0], res[n])
            if not agree(got, want):
                fail(f"history [{text(h)}]: {what} gives {got}, should be {want}")
        for f in ("a", "b"):
            e = compare_file(os.path.join(base, names(f)), m.disk.get(f))
            if e:
                fail(f"history [{text(h)}]: afterwards file {f} {e}")
    shutil.rmtree(base)
    return {"counts": {"traces_validated_against_impl": len(hists), "calls": len(s.want), "nontrivial": len(hists)}}


def many_case(case):
    """Many files open at once, closed and opened again in different orders"""
    n, k = case
    base = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    s = fwrap.Script()
    expect = {}
    order = [(i * (1, 7, 11, n - 1, 13, 1)[k]) % n for i in range(n)]
    for i in order:
        s.create(i, f"f{i}")
        s.write(i, "D", np.array([i, i + 1], dtype="i4"))
    for i in order[::-1]:
        expect[len(s.want)] = [i, i + 1]
        s.read(i, "D", np.zeros(2, dtype="i4"))
    gone = [i for i in order if i % (2 + k % 3) == 0]
    for i in gone[::-1 if k % 2 else 1]:
        s.close(i)
    for i in gone:
        s.open(i, f"f{i}", bool((i + k) % 2))
    for i in range(n):
        expect[len(s.want)] = [i, i + 1]
        s.read(i, "D", np.zeros(2, dtype="i4"))
        if i not in gone or (i + k) % 2 == 0:
            s.write(i, "D", np.array([i + 1000, 7 * i], dtype="i4"), overwrite=True)
    handles = {}
    for i in range(n):
        expect[len(s.want)] = [i, i + 1] if i in gone and (i + k) % 2 else [i + 1000, 7 * i]
        s.read(i, "D", np.zeros(2, dtype="i4"))
    for i in order:
        s.close(i)
    res, rc, out = s.run(EXE, base + "/s")
    if len(res) < len(s.want):
        fail(f"{n} files: call {len(res)} of {len(s.want)} fails: {' '.join(out.split())[-300:]}")
    for j, want in expect.items():
        if res[j].tolist() != want:
            fail(f"{n} files: reading gives {res[j].tolist()}, should be {want}")
    shutil.rmtree(base)
    return None


# Names which contain, start or end like, or differ in case or in the last characters from one another
LONG = "a_dataset_with_a_name_which_is_quite_long_and_then_some_more_characters_so_that_it_fills_buffers"
RELATED = ("D", "DD", "D2", "d", "g/D", "g/DD", "gD", "D_g", "g/g/D", LONG, LONG + "2", LONG + "3", "g/" + LONG, "a b", "a", "b", LONG + "g/D", LONG + "h/D", LONG * 4, LONG * 4 + "2")
FILES = ("f", "ff", "f2", "F", "f.hdf5", "f.hdf5x", LONG, LONG + "2")


def related_case(case):
    """Every ordered pair of datasets with related names, and of files with related names: what is done with one, then with the other"""
    first, second, two = case
    base = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)
    s = fwrap.Script()
    expect = {}
    where = [(0, n) for n in RELATED] if not two else [(i, n) for i in range(len(FILES)) for n in ("D", "DD")]
    val = {}
    for i in range(len(FILES) if two else 1):
        s.create(i, FILES[i])
    for j, w in enumerate(where):
        val[w] = ["i", [10 * j + 1, 10 * j + 2, 10 * j + 3][:2 + j % 2]]
        s.write(*w, np.array(val[w][1], dtype="i4"))
        s.wattr(w[0], w[1] + "/t", np.array(j, dtype="i8"))

    def do(op, w, what):
        v = val[w][1]
        if op == "read":
            expect[len(s.want)] = (what, list(v))
            s.read(*w, np.zeros(len(v), dtype="i4"))
        elif op == "part":
            expect[len(s.want)] = (what, v[1:2])
            s.read(*w, np.zeros(1, dtype="i4"), start=[2], count=[1])
        elif op == "dims":
            expect[len(s.want)] = (what, (1, len(v)))
            s.dims(*w)
        elif op == "over":
            v[:] = [x + 1000 for x in v][::-1]
            s.write(*w, np.array(v, dtype="i4"), overwrite=True)
            s.wattr(w[0], w[1] + "/t", np.array(where.index(w), dtype="i8"), overwrite=True)
        elif op == "sec":
            v[1] += 7
            s.write(*w, np.array(v[1:2], dtype="i4"), start=[2], count=[1])
        elif op == "attr":
            expect[len(s.want)] = (what, where.index(w))
            s.rattr(w[0], w[1] + "/t", np.zeros((), dtype="i8"))

    show = lambda w: f"{w[1]} of file {FILES[w[0]]}"
    for a, b in itertools.product(where, repeat=2):
        do(first, a, f"{first} {show(a)}")
        do(second, b, f"{second} {show(b)} after {first} {show(a)}")
        if second in ("over", "sec"):
            do(("read", "part")[first == "part"], b, f"reading {show(b)} after {second}, {first} {show(a)}")
            do("read", a, f"reading {show(a)} after {second} {show(b)}")
    for i in range(len(FILES) if two else 1):
        have = [w[1] for w in where if w[0] == i]
        groups = {"/".join(n.split("/")[:k]) for n in have for k in range(1, n.count("/") + 1)}
        for g in sorted(groups) + ["/"]:
            inside = lambda names: sorted(n.rsplit("/", 1)[-1] for n in names if n.rpartition("/")[0] == (g if g != "/" else ""))
            for what, want in (("datasets", inside(have)), ("groups", inside(groups)), ("attributes", [])):
                expect[len(s.want)] = (f"listing the {what} in {g} of file {FILES[i]}", want)
                s.listing(what, i, g)
        for n in have:
            expect[len(s.want)] = (f"listing the attributes of {n}", ["t"])
            s.listing("attributes", i, n)
    for i in range(len(FILES) if two else 1):
        s.close(i)
    res, rc, out = s.run(EXE, base + "/s")
    if len(res) < len(s.want):
        fail(f"{first}, {second} of datasets with related names: {expect[len(res)][0] if len(res) in expect else f'call {len(res)}'} fails: {' '.join(out.split())[-300:]}")
    for j, (what, want) in expect.items():
        got = plain(s.want[j][0], res[j])
        if (sorted(got) if "listing" in what else got) != want:
            fail(f"{what} gives {got}, should be {want}")
    import h5py
    for w in where:
        with h5py.File(os.path.join(base, FILES[w[0]]), "r") as f:
            if f[w[1]][()].tolist() != val[w][1] or int(f[w[1]].attrs["t"]) != where.index(w):
                fail(f"{first}, {second}: afterwards {show(w)} is {f[w[1]][()].tolist()}, should be {val[w][1]}")
    shutil.rmtree(base)
    return {"counts": {"pairs": len(where) ** 2, "calls": len(s.want), "traces_validated_against_impl": 1, "nontrivial": 1}}


def fail(x):
    raise Violation(x)


def operations(nslots, attrs=ATTRS, names=NAMES):
    ops = [("auto",), ("mv", "a", "b")]
    for i in range(nslots):
        ops += [("create", i, f) for f in ("a", "b")] + [("open", i, f, ro) for f in ("a", "./a", "b") for ro in (0, 1)]
        ops += [("close", i), ("group", i, "g")]
        ops += [(k, i, n) for n in names for k in ("new", "ext", "sec", "read", "part")] + [("over", i, n, k) for n in names for k in "ix"]
        ops += [("wattr", i, a, o) for a in attrs for o in (0, 1)] + [("rattr", i, a) for a in attrs]
    return ops


def replay(h, nslots):
    m = Model(nslots)
    for op in h:
        m.apply(op)
    return m


A = (("create", 0, "a"), ("new", 0, "D"))
STARTS = [
    ("empty", (), 500, 6000),
    ("two handles of a file", A + (("ext", 0, "g/D"), ("open", 1, "./a", 0), ("read", 1, "D")), 250, 3000),
    ("two files", A + (("create", 1, "b"), ("new", 1, "D"), ("wattr", 0, "D/t", 0), ("read", 0, "D")), 250, 3000),
    ("renamed", A + (("read", 0, "D"), ("mv", "a", "b")), 150, 2000),
    ("read only", A + (("ext", 0, "g/D"), ("wattr", 0, "/t", 0), ("close", 0), ("open", 0, "a", 1), ("read", 0, "g/D"), ("open", 1, "a", 1)), 150, 2000),
    ("initialised by the caller", (("auto",),) + A + (("wattr", 0, "D/t", 0), ("close", 0), ("open", 0, "a", 0)), 100, 1500),
]


def small(ops):
    """Fewer names"""
    return [op for op in ops if op[0] not in ("auto", "mv", "rattr", "part") and not (len(op) > 2 and op[2] in ("g/D", "g/t", "D/t", "g")) and not (op[0] == "over" and op[3] == "x") and not (op[0] == "open" and op[2] == "./a")]


def explore(nslots, ops, limit, start=(), known=()):
    """Breadth first: histories of all transitions from limit states which are not in known (those are only passed through)"""
    seen = {replay(start, nslots).key()}
    queue = [tuple(start)]
    good, bad = [], []
    visited = set()
    depth = 0
    for h in queue:
        if len(visited) == limit:
            break
        m = replay(h, nslots)
        new = m.key() not in known
        if new:
            visited.add(m.key())
            depth = len(h) - len(start)
        for op in ops:
            r = m.refuses(op)
            if r is None:
                continue
            if r:
                if new:
                    bad.append(h + (op,))
                continue
            if new:
                good.append(h + (op,))
            m2 = replay(h, nslots)
            m2.apply(op)
            k = m2.key()
            if k not in seen:
                seen.add(k)
                queue.append(h + (op,))
    if isinstance(known, set):
        known |= visited
    return good, bad, len(visited), depth


def sequences(nslots, ops, start, depth):
    out = []

    def go(h):
        m = replay(h, nslots)
        n = 0
        for op in ops:
            if m.refuses(op) is False:
                n += 1
                if len(h) - len(start) + 1 < depth:
                    go(h + (op,))
                else:
                    out.append(h + (op,))
        if not n:
            out.append(h)
    go(tuple(start))
    return out


def batches(nslots, hists, size):
    return [(nslots, hists[i:i + size], False) for i in range(0, len(hists), size)]


def main():
    global CHK, EXE
    chk = CHK = Check("C27", "model_checking")
    EXE = fwrap.build(chk.scratch.path)
    if chk.replay_requested({"many": many_case, "related": related_case, "": history_case}):
        return
    t = chk.thorough
    ops = operations(2)
    states = trans = 0
    starts = {}
    seen = set()
    for label, start, quick, thorough in STARTS:
        good, bad, n, d = explore(2, ops, thorough if t else quick, start, seen)
        states += n
        trans += len(good)
        starts[label] = {"states": n, "transitions": len(good), "calls before": len(start), "depth": d}
        chk.run_cases("transitions: " + label, batches(2, good, 30), history_case)
        if chk.violations:
            break
        bad = explore(2, ops, (thorough if t else quick) // 8, start)[1]
        trans += len(bad)
        starts[label]["refused"] = len(bad)
        chk.run_cases("refused: " + label, [(2, [h], True) for h in bad], history_case)
    good, bad, n, d = explore(3, small(operations(3)), 3000 if t else 200, A + (("create", 1, "b"), ("open", 2, "./a", 0), ("read", 2, "D")))
    states += n
    trans += len(good)
    starts["three handles"] = {"states": n, "transitions": len(good), "calls before": 5, "depth": d}
    chk.run_cases("transitions: three handles", batches(3, good, 30), history_case)
    chk.run_cases("many", [(n, k) for n in (5, 40, 300, 600) for k in range(6 if n < 600 else 2)], many_case)
    related = ("read", "part", "dims", "over", "sec", "attr")
    chk.run_cases("related", [(x, y, two) for x in related for y in related for two in (False, True)], related_case)
    hs = [h for start in (STARTS[1][1], STARTS[2][1]) for h in sequences(2, small(ops) if not t else ops, start, 3)]
    chk.run_cases("sequences", batches(2, hs, 30), history_case)
    chk.finish(rule="every transition of the model from every state, in order of depth, from several starting points (limits on the number of states), and every sequence of 3 calls without merging of states; calls which are refused for an eighth of the states; every pair of 16 datasets with related names in one file, and of 16 in 8 files with related names, for every pair of 6 operations; all executed by the compiled wrapper",
               extra={"states": states, "transitions": trans, "starting_points": starts})


if __name__ == "__main__":
    main()
