"""C19: halo catalogue, ID and merger tree readers against an independent encoder"""
import ctypes
import itertools
import os
import struct
import numpy as np
from mc.framework import Check, use_repo, Violation

use_repo()
CHK = None
NUM = [0]


def fail(x):
    raise Violation(x)


def newpath(data):
    d = os.path.join(CHK.scratch.path, f"w{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    NUM[0] += 1
    p = os.path.join(d, f"f{NUM[0]}")
    with open(p, "wb") as f:
        f.write(data)
    return p


# ---- declared layouts, written from the documentation of the formats ----
# dimension letters: g groups, s subhalos, d IDs, t trees, h halos, u unique IDs, z snapshots, or a number; I is the ID type, F the float type
def L(text):
    out = []
    for item in text.split(";"):
        p = item.split()
        if p:
            out.append((p[1], p[0], tuple(p[2:])))
    return out


SPEC = {
    "lg2.group_tab": L("i4 Ngroups; i4 Nids; i4 TotNgroups; i4 NTask; i4 GroupLen g; i4 GroupOffset g; i4 GroupMinLen; i4 Count m"),
    "lg2.group_ids": L("i4 Ngroups; i4 Nids; i4 TotNgroups; i4 NTask; I GroupIDs d"),
    "lg2.sub_ids": L("i4 Ngroups; i4 Nids; i4 TotNgroups; i4 NFiles; I GroupIDs d"),
    "lg2.sub_tab": L("i4 Ngroups; i4 Nids; i4 TotNgroups; i4 NFiles; i4 Nsubhalos; i4 NsubPerHalo g; i4 FirstSubOfHalo g; i4 SubLen s; i4 SubOffset s; i4 SubParentHalo s;"
                     "f4 Halo_M_Mean200 g; f4 Halo_R_Mean200 g; f4 Halo_M_Crit200 g; f4 Halo_R_Crit200 g; f4 Halo_M_TopHat200 g; f4 Halo_R_TopHat200 g;"
                     "f4 SubPos s 3; f4 SubVel s 3; f4 SubVelDisp s; f4 SubVmax s; f4 SubSpin s 3; I SubMostBoundID s; f4 SubHalfMass s"),
    "lg3.sub_tab": L("i4 Ngroups; i8 TotNgroups; i4 Nids; i8 TotNids; i4 NTask; i4 Nsubgroups; i8 TotNsubgroups; i4 GroupLen g; i4 GroupOffset g; i8 GroupNr g; F GroupCofM g 3; F GroupVel g 3; F GroupPos g 3;"
                     "F Halo_M_Mean200 g; F Halo_M_Crit200 g; F Halo_M_TopHat200 g; F GroupVelDisp g; ?vd F VelDisp_Mean200 g; ?vd F VelDisp_Crit200 g; ?vd F VelDisp_TopHat200 g; i4 Nsubs g; i4 FirstSub g;"
                     "i4 SubLen s; i4 SubOffset s; i8 SubGrNr s; i8 SubNr s; F SubPos s 3; F SubVel s 3; F SubCofM s 3; F SubSpin s 3; F SubVelDisp s; F SubVmax s; F SubRVmax s; F SubHalfMass s;"
                     "?sh F SubShape s 6; F SubBindingEnergy s; F SubPotentialEnergy s; F SubProfile s 9".replace("?vd F", "F?vd").replace("?sh F", "F?sh")),
    "lg3.sub_ids": L("i4 Ngroups; i8 TotNgroups; i4 Nids; i8 TotNids; i4 NTask; i8 NidsPrevious; I GroupIDs d"),
    "pg3.group_ids": L("i4 Ngroups; i4 TotNgroups; i4 Nids; i8 TotNids; i4 NTask; i4 SendOffset; I GroupIDs d"),
    "pg3.sub_ids": L("i4 Ngroups; i4 TotNgroups; i4 Nids; i8 TotNids; i4 NTask; i4 SendOffset; I GroupIDs d"),
    "pg3.group_tab": L("i4 Ngroups; i4 TotNgroups; i4 Nids; i8 TotNids; i4 NTask; i4 GroupLen g; u4 GroupOffset g; F GroupMass g; F GroupCofM g 3; F GroupVel g 3; i4 GroupLenType g 6; F GroupMassType g 6"),
    "pg3.sub_tab": L("i4 Ngroups; i4 TotNgroups; i4 Nids; i8 TotNids; i4 NTask; i4 Nsubgroups; i4 TotNsubgroups; i4 GroupLen g; u4 GroupOffset g; F GroupMass g; F GroupPos g 3;"
                     "F Halo_M_Mean200 g; F Halo_R_Mean200 g; F Halo_M_Crit200 g; F Halo_R_Crit200 g; F Halo_M_TopHat200 g; F Halo_R_TopHat200 g; F?vd VelDisp_Mean200 g; F?vd VelDisp_Crit200 g; F?vd VelDisp_TopHat200 g;"
                     "i4 ContaminationLen g; F ContaminationMass g; i4 Nsubs g; i4 FirstSub g; i4 SubLen s; i4 SubOffset s; i4 SubParent s; F SubMass s; F SubPos s 3; F SubVel s 3; F SubCofM s 3; F SubSpin s 3;"
                     "F SubVelDisp s; F SubVmax s; F SubRVmax s; F SubHalfMass s; I SubMostBoundID s; i4 SubGrNr s"),
    "g4.sub_tab": L("i4 Ngroups; i4 Nsubgroups; i4 Nids; i4 TotNgroups; i4 TotNsubgroups; i4 TotNids; i4 NFiles; i4 padding1; f8 Time; f8 Redshift; f8 HubbleParam; f8 BoxSize; f8 Omega0; f8 OmegaLambda; i4 flag_dp; i4 padding2;"
                    "F GroupLen_; i4 GroupLen g; F GroupMass g; F GroupPos g 3; F GroupVel g 3; i4 GroupLenType g 6; F GroupMassType g 6; F Halo_M_Mean200 g; F Halo_R_Mean200 g; F Halo_M_Crit200 g; F Halo_R_Crit200 g;"
                    "F Halo_M_TopHat200 g; F Halo_R_TopHat200 g; i4 Nsubs g; i4 FirstSub g; i4 SubLen s; F SubMass s; F SubPos s 3; F SubVel s 3; i4 SubLenType s 6; F SubMassType s 6; F SubCofM s 3; F SubSpin s 3;"
                    "F SubVelDisp s; F SubVmax s; F SubRVmax s; F SubHalfMassRad s; F SubHalfMassRadType s 6; F SubMassInRad s; F SubMassInRadType s 6; I SubMostBoundID s; i4 SubGrNr s; i4 SubParent s".replace("F GroupLen_;", "")),
    "mpa.sub_desc": L("i4 TotNsubhalos; i4 HaloIndex s; i4 SnapNum s"),
    "mpa.treeaux": L("i4 TotHalos; i4 Totunique; i4 Ntrees; i4 TotSnaps; i4 CountID_Snap z; i4 OffsetID_Snap z; i4 CountID_SnapTree z t; i4 OffsetID_SnapTree z t; i4 Nunique h; i4 OffsetID_Halo h; I IDs u; f4 Pos u 3; f8 Vel u 3"),
    "mpa.tree": L("i4 Ntrees; i4 Nhalos; i4 NPerTree t; HALO HaloList h"),
    "mxxl.sub_desc": L("i4 Nsubgroups; u8 SubMostBoundID s; i4 Desc_FileNr s; i4 Desc_SubIndex s"),
}
COUNTS = {"Ngroups": "g", "Nids": "d", "Nsubgroups": "s", "Nsubhalos": "s", "GroupMinLen": "m", "TotNsubhalos": "s", "TotHalos": "h", "Totunique": "u", "Ntrees": "t", "TotSnaps": "z", "Nhalos": "h"}
HALO = L("i4 Descendant; i4 FirstProgenitor; i4 NextProgenitor; i4 FirstHaloInFOFgroup; i4 NextHaloInFOFgroup; i4 Len; f4 M_Mean200; f4 M_Crit200; f4 M_TopHat; f4 Pos 3; f4 Vel 3; f4 VelDisp; f4 VMax; f4 Spin 3;"
         "I MostBoundID; i4 SnapNum; i4 FileNr; i4 SubhaloIndex; f4 SubhalohalfMass; f4?mt SubMassTab 6")
ROCK = L("i8 id; f4 pos 6; f4 corevel 3; f4 bulkvel 3; f4 m; f4 r; f4 child_r; f4 vmax_r; f4 mgrav; f4 vmax; f4 rvmax; f4 rs; f4 klypin_rs; f4 vrms; f4 J 3; f4 energy; f4 spin; f4 alt_m 4; f4 Xoff; f4 Voff; f4 b_to_a; f4 c_to_a; f4 A 3;"
         "f4 b_to_a2; f4 c_to_a2; f4 A2 3; f4 bullock_spin; f4 kin_to_pot; f4 m_pe_b; f4 m_pe_d; f4?r2 halfmass_radius; i8 num_p; i8 num_child_particles; i8 p_start; i8 desc; i8 flags; i8 n_core; f4 min_pos_err; f4 min_vel_err;"
         "f4 min_bulkvel_err; i4?hy type; f4?hy sm; f4?hy gas; f4?hy bh; f4?hy peak_density; f4?hy av_density")
VELO = L("u8 haloid; u8 ibound; u8 hostid; u8 numsubs; u8 num; u4 stype; u8?kf directhostid; u8?kf hostfofid; f8 gMvir; f8 gcm 3; f8 gpos 3; f8 gcmvel 3; f8 gvel 3; f8 gmass; f8 gMFOF; f8 gM200m; f8 gM200c; f8 gMvir_again; f8 Efrac;"
         "f8 gRvir; f8 gsize; f8 gR200m; f8 gR200c; f8 gRvir_again; f8 gRhalfmass; f8 gRmaxvel; f8 gmaxvel; f8 gsigma_v; f8 gveldisp 3 3; f8 glambda_B; f8 gJ 3; f8 gq; f8 gs; f8 geigvec 3 3; f8 cNFW; f8 Krot; f8 T; f8 Pot;"
         "f8 RV_sigma_v; f8 RV_veldisp 3 3; f8 RV_lambda_B; f8 RV_J 3; f8 RV_q; f8 RV_s; f8 RV_eigvec 3 3")
CT = {"i4": ctypes.c_int32, "u4": ctypes.c_uint32, "i8": ctypes.c_int64, "u8": ctypes.c_uint64, "f4": ctypes.c_float, "f8": ctypes.c_double}


class Bits:
    """every element stored gets its own bit pattern"""
    def __init__(self, k):
        self.n = 1 + 977 * k

    def __call__(self, t, n):
        size = int(t[1])
        v = np.arange(self.n, self.n + n, dtype="u8") * np.uint64(0x9E3779B97F4A7C15)
        self.n += n
        v = (v >> np.uint64(8)) if size == 4 else v ^ (v >> np.uint64(29))
        return v.astype(f"u{size}").view(t)


def optional(t, o):
    """type of a field, or None if absent with options o"""
    t, _, q = t.partition("?")
    if q and not o.get(q):
        return None
    return {"I": f"u{o.get('ib', 8)}", "F": f"f{o.get('fb', 4)}"}.get(t, t)


def encode(fmt, o, e, cnt, k=0, fixed={}, nf=1):
    """-> bytes, {name: array}, [(name, first byte, last byte)]"""
    bits = Bits(k)
    out, data, where = b"", {}, []
    rec = fmt == "g4.sub_tab"
    mark = lambda n: struct.pack(e + "I", n)
    for name, t, dims in SPEC[fmt]:
        if t == "HALO":
            v = struct_array(HALO, o, cnt["h"], bits, packed=True)
            where.append((name, len(out), len(out) + v.nbytes))
            data[name] = v
            out += v.tobytes()
            continue
        t = optional(t, o)
        if t is None:
            continue
        shape = tuple(cnt[d] if d.isalpha() else int(d) for d in dims)
        if name in fixed:
            v = np.asarray(fixed[name]).astype(t).reshape(shape)
        elif name in COUNTS and not dims:
            v = np.asarray(cnt[COUNTS[name]], dtype=t)
        elif name in ("NTask", "NFiles"):
            v = np.asarray(nf, dtype=t)
        elif name == "flag_dp":
            v = np.asarray(int(o["fb"] == 8), dtype=t)
        else:
            v = bits(t, int(np.prod(shape, dtype=int))).reshape(shape)
        b = v.astype(v.dtype.newbyteorder(e)).tobytes() if e != "=" else v.tobytes()
        if rec and dims and b:
            b = mark(len(b)) + b + mark(len(b))
            where.append((name, len(out) + 4, len(out) + len(b) - 4))
        else:
            where.append((name, len(out) + 4 * rec, len(out) + 4 * rec + len(b)))
            if rec and name == "Ngroups":
                out += mark(88)
                where[-1] = (name, 4, 8)
            elif rec and not dims:
                where[-1] = (name, len(out), len(out) + len(b))
        data[name] = v
        out += b
        if name == "padding2":
            out += mark(88)
    return out, data, where


def struct_array(fields, o, n, bits, packed, fixed={}):
    """array of C structures (layout by ctypes, or packed); the padding bytes are not zero"""
    fl = [(nm, optional(t, o), tuple(int(x) for x in d)) for nm, t, d in fields if optional(t, o) is not None]

    class S(ctypes.Structure):
        if packed:
            _pack_ = 1
        _fields_ = []
    cf = []
    for nm, t, d in fl:
        c = CT[t]
        for x in reversed(d):
            c = c * x
        cf.append((nm, c))
    S = type("S", (ctypes.Structure,), dict(_pack_=1, _fields_=cf) if packed else dict(_fields_=cf))
    raw = np.frombuffer(b"\xa5" * (ctypes.sizeof(S) * n), dtype="u1").reshape(n, ctypes.sizeof(S)).copy()
    vals = {}
    for nm, t, d in fl:
        v = np.asarray(fixed[nm]).astype(t).reshape((n,) + d) if nm in fixed else bits(t, n * int(np.prod(d, dtype=int))).reshape((n,) + d)
        at = getattr(S, nm).offset
        raw[:, at:at + int(t[1]) * int(np.prod(d, dtype=int))] = np.frombuffer(v.tobytes(), dtype="u1").reshape(n, -1) if n else 0
        vals[nm] = v
    r = raw.view(StructBytes)
    r.vals = vals
    return r


class StructBytes(np.ndarray):
    vals = None


def mod(name):
    import importlib
    return importlib.import_module("virgo." + name)


def readers(fmt, o):
    """every way to open a file of this format with options o: (name, function of the path)"""
    ib, fb, vd, sh, mt = o.get("ib", 8), o.get("fb", 4), bool(o.get("vd")), bool(o.get("sh")), bool(o.get("mt"))
    a, b = fmt.split(".")
    if a == "lg2":
        cls = {"group_tab": "GroupTabFile", "group_ids": "GroupIDsFile", "sub_tab": "SubTabFile", "sub_ids": "SubIDsFile"}[b]
        r = []
        for m in ("formats.subfind_lgadget2", "sims.millennium"):
            c = getattr(mod(m), cls)
            if b == "group_tab":
                r.append((m, lambda p, c=c: c(p)))
            else:
                r += [(m + " positional", lambda p, c=c: c(p, ib)), (m, lambda p, c=c: c(p, id_bytes=ib))]
                if ib == 8:
                    r.append((m + " default", lambda p, c=c: c(p)))
        return r
    if a == "lg3":
        m = mod("formats.subfind_lgadget3")
        if b == "sub_ids":
            return [("lg3", lambda p: m.SubIDsFile(p, id_bytes=ib))] + ([("lg3 default", lambda p: m.SubIDsFile(p))] if ib == 4 else [])
        r = [("lg3", lambda p: m.SubTabFile(p, SO_VEL_DISPERSIONS=vd, SUB_SHAPES=sh, id_bytes=ib, float_bytes=fb)), ("lg3 positional", lambda p: m.SubTabFile(p, vd, sh, ib, fb))]
        if not sh:
            x = mod("sims.mxxl")
            r.append(("mxxl", lambda p: x.SubTabFile(p, SO_VEL_DISPERSIONS=vd, id_bytes=ib, float_bytes=fb)))
            if vd and ib == 8 and fb == 4:
                r.append(("mxxl default", lambda p: x.SubTabFile(p)))
            if not vd and ib == 4 and fb == 4:
                r.append(("lg3 default", lambda p: m.SubTabFile(p)))
        return r
    if a == "pg3":
        m = mod("formats.subfind_pgadget3")
        if b in ("group_ids", "sub_ids"):
            c = m.GroupIDsFile if b == "group_ids" else m.SubIDsFile
            return [("pg3", lambda p: c(p, id_bytes=ib))] + ([("pg3 default", lambda p: c(p))] if ib == 8 else [])
        if b == "group_tab":
            return [("pg3", lambda p: m.GroupTabFile(p, id_bytes=ib, float_bytes=fb))] + ([("pg3 default", lambda p: m.GroupTabFile(p))] if ib == 8 and fb == 4 else [])
        r = []
        for nm, x in (("pg3", m), ("millennium2", mod("sims.millennium2"))):
            r += [(nm, lambda p, x=x: x.SubTabFile(p, SO_VEL_DISPERSIONS=vd, id_bytes=ib, float_bytes=fb)), (nm + " positional", lambda p, x=x: x.SubTabFile(p, vd, False, False, ib, fb))]
            if not vd and ib == 8 and fb == 4:
                r.append((nm + " default", lambda p, x=x: x.SubTabFile(p)))
        return r
    if a == "g4":
        r = []
        for nm in ("formats.subfind_gadget4", "sims.coco"):
            x = mod(nm)
            r += [(nm, lambda p, x=x: x.SubTabFile(p, id_bytes=ib)), (nm + " positional", lambda p, x=x: x.SubTabFile(p, ib))]
            if ib == 8:
                r.append((nm + " default", lambda p, x=x: x.SubTabFile(p)))
        return r
    if a == "mxxl":
        return [("mxxl", lambda p: mod("sims.mxxl").SubDescFile(p))]
    m = mod("formats.mpa_trees")
    if b == "sub_desc":
        return [("mpa", lambda p: m.SubDescFile(p))]
    if b == "treeaux":
        return [("mpa", lambda p: m.TreeAuxFile(p, id_bytes=ib)), ("mpa positional", lambda p: m.TreeAuxFile(p, ib))] + ([("mpa default", lambda p: m.TreeAuxFile(p))] if ib == 8 else [])
    return [("mpa", lambda p: m.TreeFile(p, id_bytes=ib, SAVE_MASS_TAB=mt)), ("mpa positional", lambda p: m.TreeFile(p, ib, mt))] + ([("mpa default", lambda p: m.TreeFile(p))] if ib == 8 and not mt else [])


def same(d, e, what):
    """a dataset read back"""
    if isinstance(e, StructBytes):
        v = d[...]
        if set(v.dtype.names) != set(e.vals) or d.shape != (len(e),) or v.shape != (len(e),):
            fail(f"{what}: fields {v.dtype.names}, shape {v.shape}; stored were {len(e)} of {list(e.vals)}")
        for nm, x in e.vals.items():
            y = v[nm]
            if y.dtype != x.dtype or y.shape != x.shape or y.tobytes() != x.tobytes():
                fail(f"{what}: field {nm} is {y!r}, stored was {x!r}")
        return
    v = np.asarray(d[...])
    if v.dtype.newbyteorder("=") != e.dtype or v.shape != e.shape or d.shape != e.shape or v.astype(e.dtype).tobytes() != e.tobytes():
        if v.dtype.newbyteorder("=") == e.dtype and v.dtype != e.dtype and v.shape == e.shape and v.byteswap().tobytes() == e.tobytes():
            return
        fail(f"{what} is {v.dtype} {v.tolist()}, stored was {e.dtype} {e.tolist()}")
    if e.ndim and len(e) > 1 and np.ascontiguousarray(d[1:]).tobytes() != np.ascontiguousarray(e[1:]).tobytes():
        fail(f"{what}[1:] differs")


def compare(f, data, what):
    if set(f.keys()) != set(data):
        fail(f"{what}: datasets {sorted(f.keys())}, the format has {sorted(data)}")
    for n, v in data.items():
        same(f[n], v, f"{what}: {n}")


def layout_case(case):
    fmt, o, e, cnt, k = case
    out, data, where = encode(fmt, o, e, cnt, k, nf=1 + (k * 37) % 65535)
    p = newpath(out)
    rs = readers(fmt, o)
    for nm, r in rs:
        f = r(p)
        compare(f, data, f"{fmt} ({nm}) {o} {e} {cnt}")
        if not f.all_bytes_used():
            fail(f"{fmt} ({nm}) {o} {e} {cnt}: all bytes of the file are declared, but all_bytes_used() is false")
        f.close()
    os.unlink(p)
    return {"counts": {"readers": len(rs), "nontrivial": int(any(cnt.values()))}}


def nfiles_case(case):
    """byte order is found from any number of files"""
    fmt, e, ns = case
    o = {"ib": 8, "fb": 4}
    for n in ns:
        cnt = {"g": 1, "s": 2, "d": 3, "m": 1}
        out, data, where = encode(fmt, o, e, cnt, n, nf=n)
        p = newpath(out)
        f = readers(fmt, o)[0][1](p)
        compare(f, data, f"{fmt} {e} with {n} files")
        f.close()
        os.unlink(p)
    return {"counts": {"headers": len(ns), "nontrivial": 1}}


def cut_case(case):
    """cut at every byte: no wrong value is returned"""
    fmt, o, e, cnt, k = case
    out, data, where = encode(fmt, o, e, cnt, k)
    rs = readers(fmt, o)
    n = 0
    for cut in range(len(out)):
        p = newpath(out[:cut])
        n += 1
        nm, r = rs[cut % len(rs)]
        try:
            f = r(p)
        except IOError:
            os.unlink(p)
            continue
        if fmt == "g4.sub_tab":
            fail(f"{fmt} {o} {e} {cnt}: file of {len(out)} bytes cut after {cut} was opened without error")
        for name, a, b in where:
            try:
                if name in f:
                    same(f[name], data[name], f"{fmt} {o} {e} {cnt}, cut after {cut} of {len(out)} bytes: {name} at {a}-{b}")
                elif b <= cut:
                    fail(f"{name} is missing")
                if b > cut:
                    fail(f"{fmt} {o} {e} {cnt}: {name} at bytes {a} to {b} was read from a file cut after {cut}")
            except IOError:
                if b <= cut:
                    raise
        if f.all_bytes_used():
            fail(f"{fmt} {o} {e} {cnt}: all_bytes_used() for a file cut after {cut} of {len(out)} bytes")
        f.close()
        os.unlink(p)
    return {"counts": {"cuts": n, "nontrivial": 1}}


# ---- structures with headers of attributes ----
def rockstar(o, nh, npart, k, fixed={}):
    bits = Bits(k)
    rev = o["rev"]
    head = [("magic", "u8", bits("u8", 1)[0]), ("snap", "i8", bits("i8", 1)[0]), ("chunk", "i8", 3), ("scale", "f4", 0.5), ("om", "f4", 0.25), ("ol", "f4", 0.75), ("h0", "f4", 0.625),
            ("bounds", "f4", bits("f4", 6)), ("num_halos", "i8", nh), ("num_particles", "i8", npart), ("box_size", "f4", 62.5), ("particle_mass", "f4", 1e6), ("particle_type", "i8", 1),
            ("format_revision", "i4", rev), ("rockstar_version", "S12", b"0.99.9-RC3+"), ("unused", "S144", b"x" * 100 + b"\0" * 43 + b"y")]
    out = b"".join(np.asarray(v, dtype=t).tobytes() for _, t, v in head)
    assert len(out) == 256
    halo = struct_array(ROCK, dict(r2=rev >= 2, hy=o["hy"]), nh, bits, packed=False, fixed=fixed)
    ids = np.asarray(fixed["IDs"], dtype="i8") if "IDs" in fixed else bits("i8", npart)
    return out + halo.tobytes() + ids.tobytes(), {n: np.asarray(v, dtype=t) for n, t, v in head}, {"Halo": halo, "IDs": ids}


def velociraptor(o, n, hsize, k):
    bits = Bits(k)
    head = [("ThisTask", "i4", 3), ("NProcs", "i4", 8), ("ng", "u8", n), ("ngtot", "u8", n + 2**63), ("hsize", "i8", hsize)] + [(f"entry{i:03d}", "S40", b"field %d" % i + b"z" * (i % 30)) for i in range(hsize)]
    out = b"".join(np.asarray(v, dtype=t).tobytes() for _, t, v in head)
    halo = struct_array(VELO, o, n, bits, packed=True)
    return out + halo.tobytes(), {n: np.asarray(v, dtype=t) for n, t, v in head}, {"Halo": halo}


def head_compare(f, head, data, what):
    if set(f.keys()) != set(data) | {"Header"} or set(f["Header"].attrs.keys()) != set(head):
        fail(f"{what}: contents {list(f.keys())}, header {list(f['Header'].attrs.keys())}")
    for n, e in head.items():
        v = np.asarray(f["Header"].attrs[n])
        if e.dtype.kind == "S" and v.dtype.kind == "S":
            v = v.astype(e.dtype)
        if v.dtype != e.dtype or v.shape != e.shape or v.tobytes() != e.tobytes():
            fail(f"{what}: header {n} is {v!r}, stored was {e!r}")
    for n, e in data.items():
        same(f[n], e, f"{what}: {n}")


def rockvelo_case(case):
    kind, o, n, m, k = case
    if kind == "rockstar":
        from virgo.formats.rockstar import HalosFile
        out, head, data = rockstar(o, n, m, k)
        open_ = [lambda p: HalosFile(p, hydro=o["hy"]), lambda p: HalosFile(p, o["hy"])] + ([] if o["hy"] else [lambda p: HalosFile(p)])
        used = True
    else:
        from virgo.formats.velociraptor import PropertiesFile
        out, head, data = velociraptor(o, n, m, k)
        open_ = [lambda p: PropertiesFile(p, ikeepfof=o["kf"]), lambda p: PropertiesFile(p, o["kf"])] + ([] if o["kf"] else [lambda p: PropertiesFile(p)])
        used = True
    for op in open_:
        p = newpath(out)
        f = op(p)
        head_compare(f, head, data, f"{kind} {o} {n} {m}")
        if f.all_bytes_used() != used:
            fail(f"{kind} {o} {n} {m}: all bytes of the file are declared, but all_bytes_used() is false")
        f.close()
        os.unlink(p)
    if n <= 1 and m <= 2:
        for cut in range(len(out)):
            p = newpath(out[:cut])
            try:
                f = open_[0](p)
                head_compare(f, head, data, f"{kind} {o} {n} {m} cut after {cut}")
            except IOError:
                os.unlink(p)
                continue
            fail(f"{kind} {o} {n} {m}: file of {len(out)} bytes cut after {cut} was read without error")
    return {"counts": {"nontrivial": int(n > 0)}}


def field_case(case):
    """MXXL density field: markers, byte order, grid"""
    e, slabs, nn, k = case
    from virgo.sims.mxxl import FieldFile
    bits = Bits(k)
    grid = bits("f4", slabs * nn * nn).reshape(slabs, nn, nn)
    size = 4 * slabs * nn * nn
    m = lambda n: struct.pack(e + "i", n)
    P = lambda f, *a: struct.pack(e + f, *a)
    head = {"NTask": np.int32(1 + k), "BoxSize": np.float64(3000.5), "nn": np.int32(nn), "isw_slabs_per_task": np.int32(slabs)}
    body = [m(8), P("i", 1 + k), P("d", 3000.5), P("i", nn), P("i", slabs), m(8), m(size), grid.astype(e + "f4").tobytes(), m(size)]
    out = b"".join(body)
    data = {n: np.asarray(v) for n, v in head.items()}
    data["grid"] = grid
    p = newpath(out)
    f = FieldFile(p)
    compare(f, data, f"field {case}")
    if not f.all_bytes_used():
        fail(f"field {case}: all_bytes_used() is false")
    f.close()
    n = 0
    for cut in range(0, len(out)):
        p = newpath(out[:cut])
        n += 1
        try:
            FieldFile(p)
        except IOError:
            os.unlink(p)
            continue
        fail(f"field {case}: file of {len(out)} bytes cut after {cut} was opened")
    for i in (6, 8):
        for new in {size + 4, size - 4, size * 2, 0, size // 2, int.from_bytes(struct.pack(">i", size), "little", signed=True)} - {size}:
            p = newpath(b"".join(body[:i] + [struct.pack(e + "i", new)] + body[i + 1:]))
            n += 1
            try:
                FieldFile(p)
            except IOError:
                os.unlink(p)
                continue
            fail(f"field {case}: record marker {i} was changed from {size} to {new} and the file was opened")
    return {"counts": {"cuts": n, "nontrivial": int(size > 0)}}


# ---- consistency checks ----
def good(fmt, groups, o, e):
    """a well formed catalogue: groups = tuple of tuples of subhalo lengths, plus loose particles; -> (bytes, fixed, cnt)"""
    glen = [sum(g) + 1 + i % 2 for i, g in enumerate(groups)]
    goff = list(np.cumsum([0] + glen[:-1])[:len(glen)]) if glen else []
    slen = [x for g in groups for x in g]
    soff = [goff[i] + sum(g[:j]) for i, g in enumerate(groups) for j in range(len(g))]
    nsub = [len(g) for g in groups]
    first = [sum(nsub[:i]) for i in range(len(nsub))]
    par = [i for i, g in enumerate(groups) for _ in g]
    ng, ns, nid = len(groups), len(slen), sum(glen)
    cnt = {"g": ng, "s": ns, "d": nid, "m": 2}
    pos = lambda n, c=1: (np.arange(n * c) % 7 + 0.5)
    fx = {"Ngroups": ng, "Nids": nid, "TotNgroups": ng, "TotNids": nid, "Nsubgroups": ns, "TotNsubgroups": ns, "Nsubhalos": ns, "GroupLen": glen, "GroupOffset": goff, "NsubPerHalo": nsub, "FirstSubOfHalo": first,
          "Nsubs": nsub, "FirstSub": first, "SubLen": slen, "SubOffset": soff, "SubParentHalo": par, "SubGrNr": par, "SubParent": [0] * ns}
    lt = np.zeros((ng, 6), dtype=int)
    for i in range(ng):
        lt[i, (1, 0, 4)[i % 3]] = glen[i] - 1
        lt[i, 5] += 1
    fx["GroupLenType"] = lt
    fx["GroupMassType"] = lt * 0.5
    fx["GroupMass"] = np.asarray(glen) * 0.5
    for name, t, dims in SPEC[fmt]:
        if t[0] in "Ff" and name not in fx:
            fx[name] = pos(int(np.prod([cnt[d] if d.isalpha() else int(d) for d in dims], dtype=int))) * (-1 if name in ("SubPos", "SubVel", "SubSpin") else 1)
    if "GroupIDs" in [s[0] for s in SPEC[fmt]]:
        ids = np.arange(nid, dtype="u8") * 3
        if fmt.startswith("lg2") and o["ib"] == 8:
            ids = ids + (np.arange(nid, dtype="u8") * 5000011 % 256**3 << np.uint64(34)) if nid else ids
            if nid > 1:
                ids[1] = (np.uint64(256**3 - 1) << np.uint64(34)) + np.uint64(2160**3)
        fx["GroupIDs"] = ids
    return fx, cnt


def verdict(fmt, o, e, fx, cnt, how=0, ro=None):
    """None if accepted, else the exception"""
    out, data, _ = encode(fmt, o, e, cnt, 0, fixed=fx, nf=3)
    return verdict_bytes(fmt, ro or o, out, how)


def verdict_bytes(fmt, o, out, how=0):
    p = newpath(out)
    rs = readers(fmt, o)
    with np.errstate(all="ignore"):
        try:
            f = rs[how % len(rs)][1](p)
            r = f.sanity_check()
        except Exception as ex:
            return ex
        finally:
            os.unlink(p)
    if r is not None:
        fail(f"{fmt}: sanity_check() returned {r!r}")
    f.close()
    return None


def bad_values(fmt, fx, cnt, o):
    """(name, new array): single corruptions which the consistency check is for"""
    big = 2**31 - 1
    inf = [np.nan, np.inf, -np.inf]

    def each(name, values, where=None):
        a = np.asarray(fx[name])
        for i in range(a.size):
            if where is not None and not where(i):
                continue
            for v in values(i) if callable(values) else values:
                b = a.copy().astype(float if isinstance(v, float) else a.dtype)
                if b.flat[i] == v:
                    continue
                b.flat[i] = v
                yield name, b
    g, s, d = cnt["g"], cnt["s"], cnt["d"]
    if fmt == "lg2.group_tab":
        for v in (d - 1, d + 1, 0, big):
            if v != d and v >= 0:
                yield "Nids", v
        for i in range(g):
            yield from each("GroupLen", [0, fx["GroupLen"][i] + 1, fx["GroupLen"][i] - 1, big], lambda j, i=i: j == i)
            yield from each("GroupOffset", [-1, d, d + 1, big, -2**31] + ([fx["GroupOffset"][i] + 1, fx["GroupOffset"][i] - 1] if g > 1 else []), lambda j, i=i: j == i)
    if fmt in ("lg2.group_ids", "lg2.sub_ids") and o["ib"] == 8:
        yield from each("GroupIDs", [np.uint64(256**3) << np.uint64(34), np.uint64(2160**3 + 1), np.uint64(2**64 - 1), np.uint64(2**63), np.uint64(2**34 - 1), (np.uint64(7) << np.uint64(34)) + np.uint64(2160**3 + 1)])
        for i in range(1, d):
            yield from each("GroupIDs", [np.uint64(0)], lambda j, i=i: j == i)
    if fmt == "lg2.sub_tab":
        n = fx["NsubPerHalo"]
        for i in range(g):
            yield from each("NsubPerHalo", [n[i] + 1, n[i] - 1, -1, big], lambda j, i=i: j == i)
        yield from each("FirstSubOfHalo", [-1, s, s + 1, big, -2**31], lambda i: n[i] > 0)
        for i in range(s):
            yield from each("SubOffset", [-1, d - fx["SubLen"][i] + 1, d + 1, big, -2**31], lambda j, i=i: j == i)
            yield from each("SubLen", [d - fx["SubOffset"][i] + 1, big], lambda j, i=i: j == i)
        yield from each("SubParentHalo", lambda i: [x for x in (-1, fx["SubParentHalo"][i] + 1, fx["SubParentHalo"][i] - 1, g, big)])
        for name, t, dims in SPEC[fmt]:
            if t == "f4":
                yield from each(name, inf)
    if fmt in ("lg3.sub_tab", "pg3.sub_tab"):
        for name in ("TotNids", "TotNgroups", "TotNsubgroups"):
            yield name, -1
            yield name, -2**31
        n = fx["Nsubs"]
        for i in range(g):
            yield from each("GroupLen", [-1, -2**31, d - fx["GroupOffset"][i] + 1, big], lambda j, i=i: j == i)
            off = [d - fx["GroupLen"][i] + 1, d + 1, big]
            yield from each("GroupOffset", off + ([-1, -2**31] if fmt == "lg3.sub_tab" else [2**32 - 1]), lambda j, i=i: j == i)
        yield from each("Nsubs", lambda i: [-1, -2**31, big] + [s - fx["FirstSub"][i] + 1])
        yield from each("FirstSub", lambda i: [-1, s, s - n[i] + 1, big, -2**31], lambda i: n[i] > 0)
        for i in range(s):
            yield from each("SubLen", [-1, -2**31, d - fx["SubOffset"][i] + 1, big], lambda j, i=i: j == i)
            yield from each("SubOffset", [-1, -2**31, d - fx["SubLen"][i] + 1, d + 1, big], lambda j, i=i: j == i)
        yield from each("SubGrNr", lambda i: [-1, g, g + 1, big])
        gr = fx["SubGrNr"]
        for i in range(s - 1):
            if gr[i] != gr[i + 1]:
                b = np.asarray(gr).copy()
                b[i], b[i + 1] = gr[i + 1], gr[i]
                yield "SubGrNr", b
        positive = ["Halo_M_Mean200", "Halo_M_Crit200", "Halo_M_TopHat200", "SubVelDisp", "SubVmax", "SubRVmax", "SubHalfMass"]
        positive += ["GroupVelDisp"] if fmt[:3] == "lg3" else ["GroupMass", "Halo_R_Mean200", "Halo_R_Crit200", "Halo_R_TopHat200", "SubMass"]
        for name in positive:
            yield from each(name, inf + [-1.0, -1e-30])
        for name in ("SubPos", "SubVel", "SubCofM", "SubSpin"):
            yield from each(name, inf)
    if fmt in ("lg3.sub_ids", "pg3.group_ids", "pg3.sub_ids"):
        ids = fx["GroupIDs"]
        for i in range(d):
            for j in range(d):
                if i != j:
                    b = ids.copy()
                    b[i] = b[j]
                    yield "GroupIDs", b
    if fmt == "pg3.group_tab":
        for i in range(g):
            yield from each("GroupLen", [fx["GroupLen"][i] + 1, fx["GroupLen"][i] - 1, -1, big], lambda j, i=i: j == i)
            yield from each("GroupMass", [fx["GroupMass"][i] * 1.01, fx["GroupMass"][i] * 0.5, 1e30], lambda j, i=i: j == i)
            if g > 1:
                yield from each("GroupOffset", [fx["GroupOffset"][i] + 1, fx["GroupOffset"][i] + 7, 2**32 - 1], lambda j, i=i: j == i)
        yield from each("GroupLenType", lambda i: [int(np.asarray(fx["GroupLenType"]).flat[i]) + 1, big])
        yield from each("GroupMassType", lambda i: [float(np.asarray(fx["GroupMassType"]).flat[i]) + 1.0, 1e20])


def sanity_case(case):
    fmt, groups, o, e, how = case
    fx, cnt = good(fmt, groups, o, e)
    x = verdict(fmt, o, e, fx, cnt, how)
    if x is not None:
        fail(f"{fmt} {o} {e}: well formed catalogue with subhalo lengths {groups} was rejected: {x!r}")
    n = 0
    for name, v in bad_values(fmt, fx, cnt, o):
        n += 1
        bad = dict(fx)
        bad[name] = v
        c = dict(cnt)
        x = verdict(fmt, o, e, bad, c, how + n)
        if x is None:
            fail(f"{fmt} {o} {e}: catalogue with subhalo lengths {groups} and {name} changed from {np.asarray(fx[name]).tolist()} to {np.asarray(v).tolist()} was accepted")
    # files of another length
    out, data, _ = encode(fmt, o, e, cnt, 0, fixed=fx, nf=3)
    if fmt[:3] in ("lg3", "pg3"):
        for extra in (1, 3, 4, 8, 12, 4096):
            n += 1
            if verdict_bytes(fmt, o, out + b"\0" * extra) is None:
                fail(f"{fmt} {o} {e} {groups}: file with {extra} bytes too many was accepted")
        for less in (1, 4, 8):
            n += 1
            if verdict_bytes(fmt, o, out[:-less]) is None:
                fail(f"{fmt} {o} {e} {groups}: file with {less} bytes missing was accepted")
    return {"counts": {"rejections": n, "nontrivial": int(len(groups) > 0)}}


def accept_case(case):
    """unusual but well formed catalogues"""
    fmt, what, o, e = case
    groups = ((2, 1), (), (3,))
    fx, cnt = good(fmt, groups, o, e)
    g, s, d = cnt["g"], cnt["s"], cnt["d"]
    if what == "one of several files":
        if fmt == "lg2.group_tab" or fmt == "lg2.sub_tab":
            fx.update(TotNgroups=1000)
        elif fmt == "pg3.group_tab":
            fx.update(TotNgroups=1000, TotNids=10**10, GroupOffset=np.asarray(fx["GroupOffset"]) + 3 * 10**9)
        elif "sub_tab" in fmt:
            fx.update(TotNgroups=1000, TotNids=500 + d, TotNsubgroups=300 + s, GroupOffset=np.asarray(fx["GroupOffset"]) + 500, SubOffset=np.asarray(fx["SubOffset"]) + 500, FirstSub=np.asarray(fx["FirstSub"]) + 300,
                      SubGrNr=np.asarray(fx["SubGrNr"]) + 997)
        else:
            fx.update(TotNgroups=1000, TotNids=10**10)
    elif what == "offsets overflow":
        if fmt == "lg3.sub_tab" or fmt == "pg3.sub_tab":
            fx.update(TotNids=10**10, SubOffset=[-5] * s)
            fx["GroupOffset"] = [2**31 + 5 if fmt[:3] == "pg3" else -7] * g
    elif what == "pointers of groups without subhalos":
        for name in ("FirstSub", "FirstSubOfHalo"):
            a = list(fx[name])
            a[1] = s + 10
            fx[name] = a
    elif what == "zero masses":
        for name in ("Halo_M_Mean200", "Halo_M_Crit200", "Halo_M_TopHat200", "SubVelDisp"):
            if name in fx:
                fx[name] = np.asarray(fx[name]) * 0
    elif what == "wrong unexamined ids":
        pass
    x = verdict(fmt, o, e, fx, cnt)
    if x is not None:
        fail(f"{fmt} {o} {e}: well formed catalogue ({what}) was rejected: {x!r}")
    return None


def options_case(case):
    """a file written with other options does not pass if its length differs"""
    fmt, groups, wo, ro, e = case
    fx, cnt = good(fmt, groups, wo, e)
    out, _, _ = encode(fmt, wo, e, cnt, 0, fixed=fx, nf=3)
    want, _, _ = encode(fmt, ro, e, cnt, 0, fixed=fx, nf=3)
    if len(out) == len(want):
        return {"counts": {}, "outcome": "same length"}
    if verdict_bytes(fmt, ro, out) is None:
        fail(f"{fmt} {e}: file written with {wo} ({len(out)} bytes) was accepted with options {ro} ({len(want)} bytes)")
    return {"counts": {"nontrivial": 1}}


def rock_sanity_case(case):
    lens, hy, rev, k = case
    from virgo.formats.rockstar import HalosFile
    n = len(lens)
    start = np.cumsum((0,) + lens)[:n]
    N = int(sum(lens))
    o = {"hy": hy, "rev": rev}

    def run(num_p, p_start, npart):
        out, head, data = rockstar(o, n, npart, k, fixed={"num_p": num_p, "p_start": p_start})
        p = newpath(out)
        try:
            with np.errstate(all="ignore"):
                return HalosFile(p, hydro=hy).sanity_check()
        except Exception as ex:
            return ex
        finally:
            os.unlink(p)
    x = run(lens, start, N)
    if x is not None:
        fail(f"rockstar: well formed file with halos of {lens} particles was rejected: {x!r}")
    m = 0
    for i in range(n):
        for v in (N - lens[i] + 1, N + 1, -1, -2**63, 2**63 - 1, 2**31, 0x4000000040000000):
            s = start.copy()
            s[i] = v
            m += 1
            if run(lens, s, N) is None:
                fail(f"rockstar: accepted first particle {v} of a halo of {lens[i]} with {N} particles stored")
        for v in (N - int(start[i]) + 1, 2**63 - 1, 2**40):
            c = np.asarray(lens).copy()
            c[i] = v
            m += 1
            if run(c, start, N) is None:
                fail(f"rockstar: accepted a halo of {v} particles starting at {start[i]} with {N} particles stored")
        c, s = np.asarray(lens).copy(), start.copy()
        c[i] = s[i] = 0x4000000040000000    # two floats of 2.0 read as an integer
        m += 1
        if run(c, s, N) is None:
            fail(f"rockstar: accepted a halo of 2^62 particles starting at 2^62 with {N} particles stored")
    return {"counts": {"rejections": m, "nontrivial": int(n > 0)}}


def invalid_case(case):
    """options which are not supported are refused"""
    what, = case
    fmt, kw = what
    o = {"ib": 8, "fb": 4}
    fx, cnt = good(fmt, ((1,),), o, "<")
    out, _, _ = encode(fmt, o, "<", cnt, 0, fixed=fx, nf=3)
    p = newpath(out)
    cls = {"lg2.group_ids": "subfind_lgadget2.GroupIDsFile", "lg2.sub_ids": "subfind_lgadget2.SubIDsFile", "lg2.sub_tab": "subfind_lgadget2.SubTabFile", "lg3.sub_tab": "subfind_lgadget3.SubTabFile",
           "lg3.sub_ids": "subfind_lgadget3.SubIDsFile", "pg3.sub_tab": "subfind_pgadget3.SubTabFile", "pg3.sub_ids": "subfind_pgadget3.SubIDsFile", "pg3.group_ids": "subfind_pgadget3.GroupIDsFile",
           "pg3.group_tab": "subfind_pgadget3.GroupTabFile"}[fmt].split(".")
    try:
        getattr(mod("formats." + cls[0]), cls[1])(p, **dict(kw))
    except Exception:
        return None
    fail(f"{fmt} was opened with {kw}")


def main():
    global CHK
    chk = CHK = Check("C19", "fault_enumeration")
    if chk.replay_requested({"layouts": layout_case, "numbers of files": nfiles_case, "cut": cut_case, "Rockstar and": rockvelo_case, "density fields": field_case, "consistency": sanity_case, "unusual": accept_case,
                             "other options": options_case, "Rockstar consistency": rock_sanity_case, "invalid": invalid_case}):
        return
    t = chk.thorough
    N = (0, 1, 2, 3, 5, 70) if t else (0, 1, 2, 5)
    OPT = {"g": [dict(ib=i, fb=f, vd=v, sh=s) for i in (4, 8) for f in (4, 8) for v in (0, 1) for s in (0, 1)]}
    detect = [f for f in SPEC if f[:3] in ("lg2", "lg3", "pg3")]
    cs = []
    for fmt in SPEC:
        used = {x.partition("?")[2] for _, x, _ in SPEC[fmt] if "?" in x} | {"ib" if x == "I" else "fb" for _, x, _ in SPEC[fmt] if x in "IF"}
        if fmt == "mpa.tree":
            used = {"ib", "mt"}
        opts = [dict(zip(sorted(used), v)) for v in itertools.product(*[(4, 8) if u in ("ib", "fb") else (0, 1) for u in sorted(used)])]
        dims = sorted({d for _, _, ds in SPEC[fmt] for d in ds if d.isalpha()} | {"h": {"h"}}.get("h" if fmt == "mpa.tree" else "", set()) | ({"g", "d"} if "Ngroups" in [s[0] for s in SPEC[fmt]] else set()) | ({"s"} if fmt in ("g4.sub_tab",) else set()))
        es = ("<", ">") if fmt in detect or fmt == "g4.sub_tab" else ("=",)
        for o in opts:
            o = dict({"ib": 8, "fb": 4}, **o)
            for e in es:
                for v in itertools.product(N if len(dims) < 4 else N[:3], repeat=len(dims)):
                    cnt = dict({"g": 0, "s": 0, "d": 0, "m": 0}, **dict(zip(dims, v)))
                    cs.append((fmt, o, e, cnt, len(cs)))
    chk.run_cases("layouts of every format", cs, layout_case)
    ns = list(range(1, 65536)) if t else sorted({a + 256 * b for a in range(256) for b in (0, 1, 127, 128, 255)} | {a + 256 * b for b in range(256) for a in (0, 1, 127, 128, 255)} - {0})
    ns = [n for n in ns if 1 <= n <= 65535]
    chk.run_cases("numbers of files", [(fmt, e, ns[i::64]) for fmt in detect for e in "<>" for i in range(64)], nfiles_case)
    cut = []
    for fmt in SPEC:
        for o in (dict(ib=8, fb=4, vd=0, sh=0, mt=0), dict(ib=4, fb=8, vd=1, sh=1, mt=1)) + ((dict(ib=8, fb=8, vd=1, sh=0, mt=0),) if t else ()):
            for e in (("<", ">") if fmt in detect or fmt == "g4.sub_tab" else ("=",)):
                for c in ((1, 1, 1, 1, 1, 1, 1, 1), (0, 2, 1, 0, 1, 2, 1, 1), (2, 0, 3, 2, 0, 1, 2, 2)) if t else ((1, 1, 1, 1, 1, 1, 1, 1), (2, 0, 2, 0, 0, 1, 2, 1)):
                    cut.append((fmt, o, e, dict(zip("gsdmthuz", c)), len(cut)))
    chk.run_cases("cut at every byte", cut, cut_case)
    rv = [("rockstar", {"hy": h, "rev": r}, n, m, k) for h in (False, True) for r in (1, 2, 3) for n in N for m in N for k in range(1)]
    rv += [("velociraptor", {"kf": kf}, n, m, 3) for kf in (0, 1) for n in N for m in (0, 1, 2, 70)]
    chk.run_cases("Rockstar and Velociraptor files", rv, rockvelo_case)
    chk.run_cases("density fields", [(e, s, n, k) for e in "<>" for s in (0, 1, 2, 3) for n in (0, 1, 2, 4) for k in range(2)], field_case)
    gs = [()]
    for ng in range(1, 4):
        gs += list(itertools.product([(), (1,), (2, 1), (1, 2, 1)] if ng < 3 or t else [(), (1,), (2, 1)], repeat=ng))
    sc, k = [], 0
    for fmt in detect:
        for groups in gs:
            for e in "<>":
                for ib, fb, vd, sh in ((8, 4, 0, 0), (4, 8, 1, 1)) + (((8, 8, 1, 0), (4, 4, 0, 1)) if t else ()):
                    sc.append((fmt, groups, dict(ib=ib, fb=fb, vd=vd, sh=sh), e, k))
                    k += 1
    chk.run_cases("consistency checks", sc, sanity_case)
    chk.run_cases("unusual catalogues", [(f, w, dict(ib=ib, fb=4, vd=0, sh=0), e) for f in detect for w in ("one of several files", "offsets overflow", "zero masses") + (("pointers of groups without subhalos",) if "sub_tab" in f else ())
                                         for ib in (4, 8) for e in "<>"], accept_case)
    oc = []
    for fmt in ("lg3.sub_tab", "pg3.sub_tab", "pg3.group_tab", "lg3.sub_ids", "pg3.sub_ids", "pg3.group_ids"):
        for groups in gs if t else gs[::5] + [((1,), (2, 1))]:
            for a in OPT["g"]:
                for b in OPT["g"]:
                    if fmt != "lg3.sub_tab" and (a["sh"] or b["sh"]):
                        continue
                    oc.append((fmt, groups, a, b, "<>"[len(oc) % 2]))
    chk.run_cases("other options than the file's", oc, options_case)
    chk.run_cases("Rockstar consistency checks", [(l, h, r, 1) for n in range(4) for l in itertools.product((0, 1, 3), repeat=n) for h in (False, True) for r in (1, 2)], rock_sanity_case)
    inv = [(f, (("id_bytes", v),)) for f in ("lg2.group_ids", "lg2.sub_ids", "lg2.sub_tab", "lg3.sub_tab", "lg3.sub_ids", "pg3.sub_tab", "pg3.sub_ids", "pg3.group_ids", "pg3.group_tab") for v in (0, 2, 5, 16)]
    inv += [(f, (("float_bytes", v),)) for f in ("lg3.sub_tab", "pg3.sub_tab", "pg3.group_tab") for v in (0, 2, 5, 16)] + [("pg3.sub_tab", (("SO_BAR_INFO", True),)), ("pg3.sub_tab", (("WRITE_SUB_IN_SNAP_FORMAT", True),))]
    chk.run_cases("invalid options", [(x,) for x in inv], invalid_case)
    chk.assumptions = ["merger tree, Rockstar, Velociraptor and MXXL descendant files are in native byte order", "groups have at least one particle", "consistency checks need only detect what they are documented to examine"]
    chk.finish(rule="for 15 table formats every combination of format options, both byte orders where detected, and counts of groups, subhalos, IDs etc. from {0,1,2,5}, with a different bit pattern in every element, through every "
                    "reader class; numbers of files with all low or all high bytes (thorough: all 1-65535) for byte order detection; files cut at every byte; Rockstar, Velociraptor and density field files; for every "
                    "catalogue of up to 3 groups of 0-3 subhalos the consistency check accepts it and rejects every single out of range value; every pair of options of file and reader; non-trivial: objects are stored",
               extra={"states": len(cs) + chk.cov.get("cuts", 0) + chk.cov.get("rejections", 0) + chk.cov.get("headers", 0)})


if __name__ == "__main__":
    main()
