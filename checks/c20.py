"""C20: groups and subhalos read from group ordered snapshots split over files"""
import itertools
import os
import shutil
import struct
import numpy as np
from mc.framework import Check, use_repo, Violation
from mc.enum import compositions

use_repo()
from checks import c18, c19
CHK = None
NUM = [0]


def fail(x):
    raise Violation(x)


def newdir():
    NUM[0] += 1
    d = os.path.join(CHK.scratch.path, f"w{os.getpid()}-{NUM[0]}")
    os.makedirs(d)
    return d


def write_snapshot(base, name, snap, files, parts, e, hdf5=False):
    """files: list of 6-tuples of counts; parts: {type: {dataset: array}} in the order of the snapshot"""
    d = f"{base}/snapdir_{snap:03d}"
    os.makedirs(d, exist_ok=True)
    at = [0] * 6
    for i, cnt in enumerate(files):
        path = f"{d}/{name}_{snap:03d}.{i}"
        here = {t: {k: v[at[t]:at[t] + cnt[t]] for k, v in parts[t].items()} for t in parts if cnt[t]}
        at = [a + c for a, c in zip(at, cnt)]
        if hdf5:
            import h5py
            with h5py.File(path, "w") as h:
                g = h.create_group("Header")
                g.attrs["NumPart_ThisFile"] = np.asarray(cnt, dtype="i4")
                g.attrs["NumFilesPerSnapshot"] = np.int32(len(files))
                g.attrs["NumPart_Total"] = np.asarray([sum(f[t] for f in files) for t in range(6)], dtype="u4")
                g.attrs["NumPart_Total_HighWord"] = np.zeros(6, dtype="u4")
                for t in here:
                    for k, v in here[t].items():
                        h[f"PartType{t}/{k}"] = v
            continue
        head = {n: (0 if not c else [0] * c) for n, t, c in c18.HEAD}
        head.update(NumPart_ThisFile=cnt, MassTable=[1.0] * 6, NumFilesPerSnapshot=len(files), NumPart_Total=[sum(f[t] for f in files) for t in range(6)])
        h = b"".join(np.asarray(head[n]).astype(e + t).tobytes() for n, t, _ in c18.HEAD)
        m = lambda n: struct.pack(e + "I", n)
        out = m(256) + h + b"\0" * (256 - len(h)) + m(256)
        for k in ("Coordinates", "Velocities", "ParticleIDs"):
            b = b"".join(here[t][k].astype(here[t][k].dtype.newbyteorder(e)).tobytes() for t in sorted(here))
            if b:
                out += m(len(b)) + b + m(len(b))
        with open(path, "wb") as f:
            f.write(out)


def particles(n, t, fb, ib):
    i = np.arange(n)
    return {"Coordinates": (i[:, None] * 4 + np.arange(3) + 1000 * t).astype(f"f{fb}") / 8, "Velocities": -(i[:, None] * 4 + np.arange(3) + 500 * t).astype(f"f{fb}") / 16,
            "ParticleIDs": (i + 10**4 * (t + 1) + (2**40 if ib == 8 else 0)).astype(f"i{ib}")}


def write_tables(base, fmt, snap, name, cat, gfiles, sfiles, o, e, tot):
    """group catalogue split over files"""
    d = f"{base}/groups_{snap:03d}"
    os.makedirs(d, exist_ok=True)
    g = s = 0
    whole = {}
    for i, (ng, ns) in enumerate(zip(gfiles, sfiles)):
        fx = {k: (np.asarray(v)[g:g + ng] if k in GROUPKEYS else np.asarray(v)[s:s + ns]) for k, v in cat.items()}
        fx.update(tot)
        out, data, _ = c19.encode(fmt, o, e, {"g": ng, "s": ns, "d": 0}, i + 3, fixed=fx, nf=len(gfiles))
        for k, v in data.items():
            whole.setdefault(k, []).append(v)
        with open(f"{d}/{name}_{snap:03d}.{i}", "wb") as f:
            f.write(out)
        g, s = g + ng, s + ns
    return {k: np.concatenate(v) for k, v in whole.items() if v[0].ndim}


GROUPKEYS = {"GroupLenType", "GroupLen", "GroupOffset", "Nsubs", "FirstSub"}


def g4_case(case):
    """types: {type: (tuple of (tuple of subhalo lengths, unbound) per group)}; loose particles; divisions over files"""
    nsubs, lens, loose, types, div, gdiv, sdiv, k = case
    e = "<>"[k % 2]
    fb, ib = (4, 8)[k // 2 % 2], (8, 4)[k // 4 % 2]
    hdf5 = k % 11 == 5
    ng, ns = len(nsubs), sum(nsubs)
    first = np.cumsum((0,) + tuple(nsubs))[:ng]
    glt = np.zeros((ng, 6), dtype=int)
    slt = np.zeros((ns, 6), dtype=int)
    expected = {}
    total = [0] * 6
    for ti, t in enumerate(types):
        at = 0
        for g in range(ng):
            want = []
            for j in range(nsubs[g]):
                n = lens[(g * 5 + j * 3 + ti * 2 + k) % len(lens)]
                slt[first[g] + j, t] = n
                want += [first[g] + j] * n
            n = lens[(g * 7 + ti + k // 3) % len(lens)]
            want += [-1] * n
            glt[g, t] = len(want)
            expected[g, t] = (at, want)
            at += len(want)
        total[t] = at + loose
    parts = {t: particles(total[t], t, fb, ib) for t in types}
    # division of particles over files: div is a tuple of fractions per file boundary and type
    nf = len(div) + 1
    files = []
    prev = [0] * 6
    for b in range(nf):
        cut = [0] * 6
        for ti, t in enumerate(types):
            cut[t] = total[t] if b == nf - 1 else min(total[t], max(prev[t], div[b] if ti == 0 else (div[b] * 3 + ti + k) % (total[t] + 1)))
        files.append([c - p for c, p in zip(cut, prev)])
        prev = cut
    base = newdir()
    try:
        write_snapshot(base, "snap", k % 1000, files, parts, e, hdf5)
        o = {"ib": ib, "fb": fb}
        whole = write_tables(base, "g4.sub_tab", k % 1000, "fof_subhalo_tab", dict(GroupLenType=glt, GroupLen=glt.sum(axis=1), Nsubs=nsubs, FirstSub=first, SubLenType=slt), gdiv, sdiv, o, e, dict(TotNgroups=ng, TotNsubgroups=ns))
        from virgo.formats import subfind_gadget4
        from virgo.sims import coco
        m = (subfind_gadget4, coco)[k % 2]
        cat = m.GroupCatalogue(base, k % 1000, id_bytes=ib) if ib == 4 or k % 3 else m.GroupCatalogue(base, k % 1000)
        catalogue(cat, whole, f"Gadget-4 catalogue, groups in files {gdiv}, subhalos {sdiv}")
        some = ["SubMostBoundID", "GroupLenType", "Nsubs"]
        cat = m.GroupCatalogue(base, k % 1000, id_bytes=ib, datasets=some)
        catalogue(cat, {n: whole[n] for n in some}, "Gadget-4 catalogue, three datasets")
        snap = m.GroupOrderedSnapshot(base, "snap", k % 1000, id_bytes=ib) if ib == 4 or k % 3 else m.GroupOrderedSnapshot(base, "snap", k % 1000)
        gfile = [(f, i) for f, n in enumerate(gdiv) for i in range(n)]
        order = list(itertools.permutations(range(ng)))[k % 6 % max(1, len(list(itertools.permutations(range(ng)))))] if ng < 4 else range(ng)
        n = 0
        for g in list(order) * 2:
            for how in (g, np.int64(g), gfile[g], list(gfile[g]), np.asarray(gfile[g]))[:: 1 if k % 5 == 0 else 2]:
                r = snap.read_fof_group(how)
                n += 1
                what = f"group {how!r} of {ng}, subhalos {nsubs}, type lengths {glt[g].tolist()}, particles in files {files}, catalogue files {gdiv} {sdiv}"
                if len(r) != 6:
                    fail(f"{what}: result of length {len(r)}")
                for t in range(6):
                    a, sub = expected.get((g, t), (0, []))
                    if not sub:
                        if r[t] not in ({},) and any(len(v) for v in r[t].values()):
                            fail(f"{what}: type {t} has particles {r[t]}")
                        continue
                    if set(r[t]) != {"Coordinates", "Velocities", "ParticleIDs", "SubNr"}:
                        fail(f"{what}: type {t} has {sorted(r[t])}")
                    for name, v in parts[t].items():
                        w = v[a:a + len(sub)]
                        if r[t][name].dtype.newbyteorder("=") != w.dtype or not np.array_equal(r[t][name], w):
                            fail(f"{what}: type {t} {name} is {r[t][name].tolist()}, stored were {w.tolist()}")
                    if not np.array_equal(r[t]["SubNr"], sub):
                        fail(f"{what}: type {t} SubNr is {r[t]['SubNr'].tolist()}, should be {sub}")
        return {"counts": {"group reads": n, "nontrivial": int(len(files) > 1 and sum(total) > 0)}}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def catalogue(cat, want, what):
    if set(cat.keys()) != set(want) or len(cat) != len(want) or set(iter(cat)) != set(want):
        fail(f"{what}: datasets {sorted(cat.keys())}")
    for n, e in want.items():
        v = cat[n]
        if v.dtype.newbyteorder("=") != e.dtype or v.shape != e.shape or v.astype(e.dtype).tobytes() != e.tobytes():
            fail(f"{what}: {n} is {v.dtype} {v.tolist()}, stored was {e.dtype} {e.tolist()}")


def p3_case(case):
    """groups: tuple of (subhalo lengths, unbound); all particles are of type 1"""
    groups, loose, div, gdiv, sdiv, k = case
    e = "<>"[k % 2]
    fb, ib, vd, sfb = (4, 8)[k // 2 % 2], (8, 4)[k // 4 % 2], k // 8 % 2, (4, 8)[k // 3 % 2]
    hdf5 = k % 13 == 5
    glen = [sum(s) + u for s, u in groups]
    ng = len(groups)
    goff = np.cumsum([0] + glen)[:ng]
    slen = [x for s, _ in groups for x in s]
    soff = [goff[i] + sum(s[:j]) for i, (s, _) in enumerate(groups) for j in range(len(s))]
    nsub = [len(s) for s, _ in groups]
    N = sum(glen) + loose
    if sum(div) != N:
        raise AssertionError
    gas = [0, 3, 1][k % 3]
    parts = {1: particles(N, 1, sfb, ib)}
    if gas:
        parts[0] = particles(gas * len(div), 0, sfb, ib)
    base = newdir()
    try:
        write_snapshot(base, "run", k % 1000, [[gas, n, 0, 0, 0, 0] for n in div], parts, e, hdf5)
        o = {"ib": ib, "fb": fb, "vd": vd}
        whole = write_tables(base, "pg3.sub_tab", k % 1000, "subhalo_tab", dict(GroupLen=glen, GroupOffset=goff, Nsubs=nsub, FirstSub=np.cumsum([0] + nsub)[:ng], SubLen=slen, SubOffset=soff), gdiv, sdiv, o, e,
                             dict(TotNgroups=ng, TotNsubgroups=len(slen), TotNids=N))
        from virgo.formats import subfind_pgadget3
        from virgo.sims import millennium2
        m = (subfind_pgadget3, millennium2)[k % 2]
        kw = dict(id_bytes=ib, float_bytes=fb, SO_VEL_DISPERSIONS=bool(vd))
        if ib == 8 and fb == 4 and not vd:
            kw = {}
        cat = m.GroupCatalogue(base, k % 1000, **kw)
        catalogue(cat, whole, f"P-Gadget3 catalogue {kw}, groups in files {gdiv}, subhalos {sdiv}")
        cat = m.GroupCatalogue(base, k % 1000, ["SubPos", "GroupLen"], **kw)
        catalogue(cat, {n: whole[n] for n in ("SubPos", "GroupLen")}, "P-Gadget3 catalogue, two datasets")
        snap = m.GroupOrderedSnapshot(base, "run", k % 1000, **kw)
        n = 0

        def check(r, a, b, names, what):
            if set(r) != set(names):
                fail(f"{what}: result has {sorted(r)}")
            for name in names:
                w = parts[1][name][a:b]
                if r[name].dtype.newbyteorder("=") != w.dtype or not np.array_equal(r[name], w):
                    fail(f"{what}: {name} is {r[name].dtype} {r[name].tolist()}, stored were {w.tolist()}")
        every = ("Coordinates", "Velocities", "ParticleIDs")
        ops = [("fof", g) for g in range(ng)] + [("sub", s) for s in range(len(slen))] + [("range", a, b) for a in range(N + 1) for b in range(a, N + 1)]
        if k % 2:
            ops = ops[::-1]
        for op in ops:
            names = every if n % 3 else (["ParticleIDs"], ("Velocities", "ParticleIDs"))[n % 2]
            dd = () if names is every and n % 2 else (names,)
            if op[0] == "fof":
                a, b = goff[op[1]], goff[op[1]] + glen[op[1]]
                r = snap.read_fof_group(op[1], *dd)
            elif op[0] == "sub":
                a, b = soff[op[1]], soff[op[1]] + slen[op[1]]
                r = snap.read_subfind_group(op[1], *dd)
            else:
                a, b = op[1:]
                if N == 0:
                    continue
                r = snap.read_particle_range(a, b - a, *dd)
            n += 1
            check(r, a, b, names, f"P-Gadget3 {op}, particles {a} to {b}, particles in files {div}, groups {groups}")
        return {"counts": {"group reads": n, "nontrivial": int(len(div) > 1 and N > 0)}}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def order_case(case):
    """one object, every sequence of reads: the numbers of particles in files are remembered"""
    div, seqlen, part, k = case
    N = sum(div)
    base = newdir()
    try:
        parts = {1: particles(N, 1, 4, 8), 4: particles(N, 4, 4, 8)}
        write_snapshot(base, "run", 1, [[0, n, 0, 0, m, 0] for n, m in zip(div, div[::-1])], parts, "<")
        glen = [1, N - 2, 1]
        goff = [0, 1, N - 1]
        o = {"ib": 8, "fb": 4, "vd": 0}
        write_tables(base, "pg3.sub_tab", 1, "subhalo_tab", dict(GroupLen=glen, GroupOffset=goff, Nsubs=[0] * 3, FirstSub=[0] * 3), [3], [0], o, "<", dict(TotNgroups=3, TotNsubgroups=0, TotNids=N))
        glt = np.zeros((3, 6), dtype=int)
        glt[:, 1] = glen
        glt[:, 4] = glen[::-1]
        write_tables(base, "g4.sub_tab", 1, "fof_subhalo_tab", dict(GroupLenType=glt, Nsubs=[0] * 3, FirstSub=[0] * 3), [3], [0], o, "<", dict(TotNgroups=3, TotNsubgroups=0))
        from virgo.formats import subfind_pgadget3, subfind_gadget4
        n = 0
        for seq in itertools.product(range(3), repeat=seqlen):
            a = subfind_pgadget3.GroupOrderedSnapshot(base, "run", 1)
            b = subfind_gadget4.GroupOrderedSnapshot(base, "run", 1)
            for g in seq:
                n += 2
                r = a.read_fof_group(g)
                for name, v in parts[1].items():
                    if not np.array_equal(r[name], v[goff[g]:goff[g] + glen[g]]):
                        fail(f"P-Gadget3: reading groups {seq} from files of {div}: group {g} {name} is {r[name].tolist()}")
                r = b.read_fof_group(g)
                for t, off in ((1, goff[g]), (4, sum(glen[::-1][:g]))):
                    for name, v in parts[t].items():
                        if not np.array_equal(r[t][name], v[off:off + glt[g, t]]):
                            fail(f"Gadget-4: reading groups {seq} from files of {div}: group {g} type {t} {name} is {r[t][name].tolist()}")
        return {"counts": {"group reads": n, "nontrivial": 1}}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    global CHK
    chk = CHK = Check("C20", "exploration")
    c19.CHK = chk
    if chk.replay_requested({"Gadget-4": g4_case, "P-Gadget3": p3_case, "sequences": order_case}):
        return
    t = chk.thorough
    cs = []
    # Gadget-4: subhalos per group, lengths, loose particles, types; every division of the first type's particles over up to 3 files; every division of the catalogue over up to 3 files
    LENS = [(1,), (0, 1, 2), (2, 1, 0, 3), (0,)]
    for ng in range(0, 4):
        for nsubs in itertools.product(range(3), repeat=ng):
            ns = sum(nsubs)
            for li, lens in enumerate(LENS):
                for loose in (0, 2):
                    for types in ((1,), (1, 4), (0, 1, 5)):
                        m = 2 + 3 * ng
                        divs = [()] + [(a,) for a in range(m)] + [(a, b) for a in range(m) for b in range(a, m)]
                        step = 1 if t else (1 if ng == 1 else 7)
                        for div in divs[(len(cs) % step)::step]:
                            nfc = 1 + len(cs) % 3
                            gd = list(compositions(ng, nfc))
                            sd = list(compositions(ns, nfc))
                            cs.append((nsubs, lens, loose, types, div, tuple(gd[len(cs) % len(gd)]), tuple(sd[len(cs) // 2 % len(sd)]), len(cs)))
    for nsubs in ((1, 2), (0, 3), (2, 0, 1)):
        for nf in (1, 2, 3, 4) if t else (2, 3):
            for gd in compositions(len(nsubs), nf):
                for sd in compositions(sum(nsubs), nf):
                    for div in ((2,), (0, 4)):
                        cs.append((nsubs, LENS[2], 1, (1, 4), div, tuple(gd), tuple(sd), len(cs)))
    chk.run_cases("Gadget-4 snapshots", cs, g4_case)
    c3 = []
    G = [((), 1), ((1,), 0), ((2,), 1), ((1, 1), 0), ((0, 1), 1), ((), 3)]
    for ng in range(0, 4):
        for groups in itertools.product(G, repeat=ng):
            if ng == 3 and not t and len(c3) % 3 == 0 and groups[0] == groups[1]:
                continue
            for loose in (0, 1):
                N = sum(sum(s) + u for s, u in groups) + loose
                divs = [d for nf in (1, 2, 3) for d in compositions(N, nf)]
                step = 1 if t or ng < 2 else 3 if ng == 2 else 23
                for div in divs[len(c3) % step::step]:
                    nfc = 1 + len(c3) % 3
                    gd, sd = list(compositions(ng, nfc)), list(compositions(sum(len(s) for s, _ in groups), nfc))
                    c3.append((groups, loose, tuple(div), tuple(gd[len(c3) % len(gd)]), tuple(sd[len(c3) // 2 % len(sd)]), len(c3)))
    chk.run_cases("P-Gadget3 snapshots", c3, p3_case)
    so = [(tuple(d), 4 if t else 3, None, 0) for N in (3, 4, 5) for nf in (2, 3, 4) for d in compositions(N, nf)]
    chk.run_cases("sequences of reads", so, order_case)
    chk.assumptions = ["particles of each type are stored in the order of groups, subhalos first; a snapshot has particles if a range of it is read"]
    chk.finish(rule="Gadget-4: up to 3 groups with 0-2 subhalos each, 4 sets of lengths including zero, 1-3 particle types, all divisions of a type's particles over up to 3 files (others follow), catalogues over up to 3 files; "
                    "P-Gadget3: up to 3 groups of 6 kinds, all divisions of the particles over up to 3 files, every group, subhalo and range read; every sequence of 3 (thorough 4) group reads with one object; both byte orders, "
                    "4 and 8 byte values, binary and HDF5; non-trivial: more than one file",
               extra={"states": chk.cov.get("group reads", 0)})


if __name__ == "__main__":
    main()
