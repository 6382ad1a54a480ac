"""C24: export of merger trees to database tables"""
import collections
import itertools
import os
import re
import warnings
import numpy as np
from mc.framework import Check, use_repo, Violation
from mc.enum import compositions
from checks.c23 import forests, levels, check_depth_first

use_repo()
CHK = None
SQL = {"i4": "integer", "i8": "bigint", "f4": "real", "f8": "float", "S1": "char(1)", "S8": "char(8)", "S13": "char(13)", "S130": "char(130)"}
BAD = ("u4", "u8", "i2", "f2", "c8", "b1", "i1")
EXTREME = {"i4": (-2**31, 2**31 - 1, 0, 10, 26, 13), "i8": (-2**63, 2**63 - 1, 2**53 + 1, 10, 0x0d0a0d0a0d0a, -1), "f4": (np.float32(0.1), -np.inf, 1e-45, 0.0, 3.5, 1e30), "f8": (0.1, np.inf, 5e-324, -0.0, 1.0, 1e300)}


def fail(x):
    raise Violation(x)


def column(dt, shape, k):
    if dt[0] == "S":
        w = int(dt[1:])
        pool = [b"", b"a", b"\r\n", b"x" * w, b"\xff\x80"[:w], b"a b,'"[:w]]
    else:
        pool = EXTREME[dt]
    n = int(np.prod(shape))
    return np.array([pool[(i + k) % len(pool)] for i in range(n)], dtype=dt).reshape(shape)


def parse_script(text):
    """Name and type of each column of the create table statement"""
    m = re.match(r"\s*create\s+table\s+(\S+?)\s*\((.*)\)\s*;?\s*$", text, re.S | re.I)
    if m is None:
        fail(f"script is not a create table statement: {text!r}")
    cols = []
    for part in re.split(r",(?![^(]*\))", m.group(2)):
        if part.strip():
            c = re.match(r"\s*(\S+)\s+(\w+\s*(?:\(\s*[0-9]+\s*\))?)\s*(NOT\s+NULL)?\s*$", part, re.I)
            if c is None:
                fail(f"column definition {part!r} in {text!r}")
            cols.append((c.group(1), re.sub(r"\s", "", c.group(2)).lower(), c.group(3)))
    return m.group(1), cols


def check_files(path, table, data, what):
    """The files contain one row per halo and one column per property of data, in order"""
    import virgo.database.make_dtrees_table as mdt
    with open(path + ".sql", newline="") as f:
        name, cols = parse_script(f.read())
    want = []
    for k, v in data.items():
        for suffix in ([""] if v.ndim == 1 else ["_x", "_y", "_z"]):
            want.append((k + suffix, SQL.get(v.dtype.str[1:].replace("|", ""), f"char({v.dtype.itemsize})"), v if v.ndim == 1 else v[:, "_x_y_z".index(suffix) // 2]))
    if name != table:
        fail(f"{what}: script creates table {name}")
    if [c[:2] for c in cols] != [w[:2] for w in want]:
        fail(f"{what}: script has columns {[c[:2] for c in cols]}, should have {[w[:2] for w in want]}")
    if any(c[2] is None for c in cols):
        fail(f"{what}: columns are nullable: {cols}")
    # Decode the rows from the types which the script declares
    size = {"integer": 4, "bigint": 8, "real": 4, "float": 8}
    raw = open(path + ".dat", "rb").read()
    n = len(next(iter(data.values())))
    widths = [size[t] if t in size else int(t[5:-1]) for _, t, _ in cols]
    if len(raw) != n * sum(widths):
        fail(f"{what}: data file has {len(raw)} bytes for {n} rows of {sum(widths)} bytes")
    off = 0
    for (cname, t, _), w, (_, _, v) in zip(cols, widths, want):
        cells = b"".join(raw[i * sum(widths) + off: i * sum(widths) + off + w] for i in range(n))
        got = np.frombuffer(cells, dtype={"integer": "<i4", "bigint": "<i8", "real": "<f4", "float": "<f8"}.get(t, f"S{w}"))
        if got.tobytes() != np.ascontiguousarray(v).tobytes():
            fail(f"{what}: column {cname} in the data file is {got.tolist()}, should be {v.tolist()}")
        off += w
        nt = np.dtype(mdt.numpy_type(t))
        if nt != got.dtype:
            fail(f"numpy type of {t} is {nt}")


def write_case(case):
    import virgo.database.make_dtrees_table as mdt
    n, cols, k = case
    path = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    data = (collections.OrderedDict, dict)[k % 2]()
    names = ["pos", "nodeIndex", "a", "vel_x", "Z"]
    for i, (dt, d) in enumerate(cols):
        x = column(dt, (n,) if d == 1 else (n, 3), i + k)
        if k % 3 == 1 and n:
            x = np.concatenate((x, x))[::2] if n > 1 else x       # a view which is not contiguous
        data[names[(i + k) % 5]] = x
    keep = {a: b.copy() for a, b in data.items()}
    if k % 2:
        for e in (".dat", ".sql"):
            with open(path + e, "wb") as f:
                f.write(b"previous contents of the file, longer than what is written\n" * 20)
    mdt.write_sql_server_native_file("dbo.T" + str(k), data, path + ".dat", path + ".sql")
    what = f"table of {n} rows with columns {[(a, b.dtype.str, b.shape) for a, b in keep.items()]}"
    check_files(path, "dbo.T" + str(k), keep, what)
    for a in keep:
        if keep[a].tobytes() != data[a].tobytes():
            fail(f"{what}: input modified")
    os.unlink(path + ".dat")
    os.unlink(path + ".sql")
    return None


def refuse_case(case):
    """Arrays which cannot be stored are refused"""
    import virgo.database.make_dtrees_table as mdt
    path = os.path.join(CHK.scratch.path, f"r{os.getpid()}")
    data = collections.OrderedDict()
    for i, (dt, shape) in enumerate(case):
        data["c%d" % i] = np.zeros(shape, dtype=dt)
    try:
        mdt.write_sql_server_native_file("t", data, path + ".dat", path + ".sql")
    except ValueError:
        return None
    fail(f"columns {[(a, b.dtype.str, b.shape) for a, b in data.items()]} were written")


def type_case(case):
    import virgo.database.make_dtrees_table as mdt
    dt, ok = case
    if ok:
        s = mdt.sql_type(np.dtype(dt))
        if dt in SQL and s != SQL[dt]:
            fail(f"SQL type of {dt} is {s}")
        for x in (s, s + " ", " " + s) if s.startswith("char") else (s,):
            if np.dtype(mdt.numpy_type(x)) != np.dtype(dt):
                fail(f"numpy type {dt} is stored as {s} which is read as {np.dtype(mdt.numpy_type(x))}")
        return None
    f = mdt.numpy_type if dt.startswith("sql:") else mdt.sql_type
    x = dt[4:] if dt.startswith("sql:") else np.dtype(dt)
    try:
        y = f(x)
    except ValueError:
        return None
    fail(f"unsupported type {x} gives {y!r}")


def tree_file(path, n, i, cols, num):
    import h5py
    with h5py.File(path, "w") as f:
        g = f.create_group("fileInfo")
        g.attrs["numberOfFiles"] = num
        h = f.create_group("haloTrees")
        for name, x in cols.items():
            h[name] = x


def table_case(case):
    """End to end: trees in several files"""
    import h5py
    import virgo.database.make_dtrees_table as mdt
    p, mass, sizes, k = case
    n = len(p)
    path = os.path.join(CHK.scratch.path, f"t{os.getpid()}")
    idt = ("i8", "i8", "i4")[k % 3]
    node = np.array([(10**12 + 5 * x if idt == "i8" else 5 * x + 1) for x in range(n)], dtype=idt)
    desc = np.array([node[j] if j >= 0 else -1 for j in p], dtype=idt)
    snap = np.array([63 - 2 * x for x in levels(p)], dtype="i4")
    m = np.array([1 + x for x in mass], dtype=("f4", "f8")[k % 2])
    cols = {"nodeIndex": node, "descendantIndex": desc, "snapshotNumber": snap, "nodeMass": m}
    if k % 4 == 0:
        cols["position"] = column(("f4", "f8")[k // 4 % 2], (n, 3), k)
    if k % 4 == 1:
        cols["name"] = column("S8", (n,), k)
        if k % 8 != 1:
            # the widest of the files
            w = max(1, max(len(x) for x in cols["name"]))
            cols["name"] = cols["name"].astype(f"S{w}" if 0 not in sizes else "S8")
    if k % 4 == 2:
        cols["isMain"] = column("i4", (n,), k)
        cols["velocity"] = column("i8", (n, 3), k)
    first = 0
    for i, s in enumerate(sizes):
        part = {a: b[first:first + s] for a, b in cols.items()}
        if k % 4 == 1 and k % 8 != 1 and s:
            # strings only as long as needed in this file
            part["name"] = part["name"].astype("S%d" % max(1, max(len(x) for x in part["name"])))
        if i % 2 and k % 3 == 0:
            part = dict(reversed(list(part.items())))
        tree_file(f"{path}.{i}.hdf5", n, i, part, len(sizes) if k % 2 else np.int32(len(sizes)))
        first += s
    # A file which does not belong to the set
    tree_file(f"{path}.{len(sizes)}.hdf5", n, 0, {a: b[:1] for a, b in cols.items()}, 1)
    what = f"trees with descendants {p}, masses {m.tolist()}, in files with {sizes} halos"
    try:
        data = mdt.read_dhalo_trees(path)
        if list(data) != sorted(cols):
            fail(f"{what}: read {list(data)}")
        for a in cols:
            if data[a].dtype != cols[a].dtype or data[a].shape != cols[a].shape or data[a].tobytes() != cols[a].tobytes():
                fail(f"{what}: {a} read as {data[a].tolist()}, stored was {cols[a].tolist()}")
        mdt.make_dtrees_table("trees", path, path + "out")
        prog = [[j for j in range(n) if p[j] == i] for i in range(n)]
        branch = [0.0] * n
        for i in sorted(range(n), key=lambda i: -levels(p)[i]):
            branch[i] = float(m[i]) + max([branch[j] for j in prog[i]] + [0.0])
        # Get the depth first indexes from the file itself
        with open(path + "out.sql") as f:
            tab, sc = parse_script(f.read())
        raw = open(path + "out.dat", "rb").read()
        dt = np.dtype([(a, {"integer": "i4", "bigint": "i8", "real": "f4", "float": "f8"}.get(t, "S" + t[5:-1])) for a, t, _ in sc])
        rows = np.frombuffer(raw, dtype=dt)
        if len(rows) != n:
            fail(f"{what}: table has {len(rows)} rows")
        new = [a for a, t, _ in sc][sum(1 if c.ndim == 1 else 3 for c in cols.values()):]
        if sorted(new) != ["depthFirst", "endMainBranch", "lastProgenitor", "mBranch"]:
            fail(f"{what}: columns added are {new}")
        if not np.allclose(rows["mBranch"], branch, rtol=1e-6, atol=0):
            fail(f"{what}: main branch mass {rows['mBranch'].tolist()}, should be {branch}")
        check_depth_first(p, rows["mBranch"].tolist(), (rows["depthFirst"], rows["endMainBranch"], rows["lastProgenitor"]), what)
        full = collections.OrderedDict((a, cols[a]) for a in sorted(cols))
        for a in new:
            full[a] = rows[a]
        check_files(path + "out", "trees", full, what)
    finally:
        for i in range(len(sizes) + 1):
            os.unlink(f"{path}.{i}.hdf5")
        for e in ("out.dat", "out.sql"):
            if os.path.exists(path + e):
                os.unlink(path + e)
    return None


def main():
    global CHK
    chk = CHK = Check("C24", "exploration")
    if chk.replay_requested({"write": write_case, "refuse": refuse_case, "types": type_case, "tables": table_case}):
        return
    t = chk.thorough
    kinds = [(d, k) for d in ("i4", "i8", "f4", "f8", "S1", "S13") for k in (1, 3)]
    cs = []
    for c in range(1, 4 if not t else 5):
        for cols in itertools.product(kinds, repeat=c):
            if c < 3 or t:
                for n in ((0, 1, 2, 5) if c < 4 else (3,)):
                    cs.append((n, cols, len(cs)))
            else:
                cs.append(((3, 1, 7)[len(cs) % 3], cols, len(cs)))
    for d in ("S8", "S130"):
        for n in range(4):
            cs.append((n, ((d, 1), ("i4", 1), (d, 3)), n))
    # more rows than fit in a buffer
    for n in (1000, 70000):
        cs.append((n, (("f8", 3), ("S13", 1), ("i4", 1)), n))
    chk.run_cases("write", cs, write_case)
    bad = [[(b, (3,))] for b in BAD + ("U4", "M8[s]")] + [[("i4", (3,)), (b, (3,))] for b in BAD] + [[("i4", s)] for s in ((3, 2), (3, 1), (3, 4), (3, 3, 3), (3, 3, 1))]
    bad += [[("i4", (a,)), ("f8", (b,) if r == 1 else (b, 3))] for a, b in itertools.permutations((0, 1, 2, 3), 2) for r in (1, 3)]
    chk.run_cases("refuse", bad, refuse_case)
    ty = [(d, True) for d in SQL] + [("S%d" % i, True) for i in range(1, 257)] + [(b, False) for b in BAD + ("U4", "M8[s]")]
    ty += [("sql:" + s, False) for s in ("", "text", "char", "char()", "char(x)", "smallint", "double", "floats", "bigintx")]
    chk.run_cases("types", ty, type_case)
    cs = []
    orders = list(itertools.permutations(range(4)))
    for n in range(1, 5):
        for p in forests(n, False):
            for nf in range(1, 4):
                for sizes in compositions(n, nf):
                    for r in range((1 if n == 4 else 2) if not t else 6):
                        o = orders[(len(cs) * 7 + r * 5) % 24]
                        cs.append((p, tuple(x % n for x in o[:n]) if r % 2 else o[:n], sizes, len(cs)))
    chk.run_cases("tables", cs, table_case)
    chk.assumptions = ["all files of a set have the same datasets; the data types listed"]
    chk.finish(rule="every list of 1 to 3 columns (thorough 4) of 12 kinds (4 numeric types and two kinds of strings, one or three components) with extreme values and bytes, 0 to 70000 rows, over existing files; every unsupported type, shape and combination of unequal lengths; "
                    "every forest of up to 4 halos split in every way over up to 3 files, from files to decoded table; every string width to 256")


if __name__ == "__main__":
    main()
