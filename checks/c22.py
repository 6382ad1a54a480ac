"""C22: units of SWIFT and SOAP datasets"""
import itertools
import os
import re
import warnings
import numpy as np
from mc.framework import Check, use_repo, Violation

use_repo()
CHK = None
SYS = [dict(L=3.08567758e24, M=1.98841e43, t=3.08567758e19, T=1.0, I=1.0), dict(L=1.0, M=1.0, t=1.0, T=1.0, I=1.0), dict(L=100.0, M=1000.0, t=60.0, T=2.5, I=1.0)]
NAMES = dict(L="Unit length in cgs (U_L)", M="Unit mass in cgs (U_M)", t="Unit time in cgs (U_t)", T="Unit temperature in cgs (U_T)", I="Unit current in cgs (U_I)")
CONST = dict(parsec=3.08567758149e18, solar_mass=1.98841e33, newton_G=6.6743e-8, speed_light_c=2.99792458e10)
NOCOSMO, COSMO, COSMO_OLD = ("Conversion factor to CGS (not including cosmological corrections)", "Conversion factor to physical CGS (including cosmological corrections)",
                             "Conversion factor to CGS (including cosmological corrections)")


def fail(x):
    raise Violation(x)


def close(x, y, tol=1e-8):
    return np.allclose(x, y, rtol=tol, atol=0.0)


def create(f, snap, code, a, h):
    f.create_group("Header")
    for name, s in (("Units", snap), ("InternalCodeUnits", code)):
        if s is not None:
            g = f.create_group(name)
            for k in NAMES:
                g.attrs[NAMES[k]] = np.array([s[k]])
    c = f.create_group("Cosmology")
    for k, v in {"Scale-factor": a, "h": h, "Redshift": 1 / a - 1, "H0 [internal units]": 70.0, "Omega_m": 0.3, "Omega_b": 0.05, "Omega_cdm": 0.25, "Omega_lambda": 0.7, "Omega_k": 0.0, "Omega_r": 0.0,
                 "Omega_nu_0": 0.0, "w_0": -1.0, "w_a": 0.0, "w": -1.0, "T_CMB_0 [K]": 2.7, "M_nu_eV": 0.0, "N_eff": 3.04, "N_ur": 2.0, "deg_nu": 1.0, "Cosmological run": 1}.items():
        c.attrs[k] = np.array([v])
    p = f.create_group("PhysicalConstants/CGS")
    for k, v in CONST.items():
        p.attrs[k] = np.array([v])


def add(f, name, data, s, exps, ae, he, fac, a, h, old):
    d = f.create_dataset(name, data=data)
    no = fac
    for k, x in exps.items():
        no *= s[k]**x
    ft = "f4" if old or len(name) % 2 else "f8"    # SWIFT stores single precision; the values are exact in it
    for k in "ILMTt":
        d.attrs[f"U_{k} exponent"] = np.array([exps.get(k, 0)], dtype=ft)
    d.attrs["a-scale exponent"] = np.array([ae], dtype=ft)
    d.attrs["h-scale exponent"] = np.array([he], dtype=ft)
    d.attrs[NOCOSMO] = np.array([no])
    d.attrs[COSMO_OLD if old else COSMO] = np.array([no * a**ae * h**he])
    return no, no * a**ae * h**he


def powers(unit):
    return {str(k): float(v) for k, v in unit.expr.as_powers_dict().items() if k.is_Symbol}


DATA = [np.arange(6.0).reshape(2, 3) + 1, np.arange(1, 5, dtype="f4"), np.arange(3, dtype="i8") + 1, np.float64(2.5), np.zeros((0, 3)), np.arange(8, dtype="i4").reshape(2, 2, 2) + 1]
SLICES = [Ellipsis, (), slice(1, None), 0, slice(0, 0), slice(None, None, 2)]


def opened(path, k, mode):
    from virgo.formats.swift import SwiftSnapshot
    from virgo.formats.soap import SOAPCatalogue
    c = (SwiftSnapshot, SOAPCatalogue)[k % 2]
    if mode == "soap" and k % 3:
        return c(path, "r")
    return c(path, "r", mode=mode)


def units_case(case):
    import h5py
    warnings.simplefilter("ignore")
    snap, code, a, h, items, k = case
    s = SYS[snap]
    path = os.path.join(CHK.scratch.path, f"u{os.getpid()}.hdf5")
    want = []
    with h5py.File(path, "w") as f:
        create(f, s, SYS[code] if code is not None else None, a, h)
        for i, (exps, ae, he, fac) in enumerate(items):
            data = DATA[(i + k) % len(DATA)]
            name = (f"d{i}", f"PartType{i % 6}/q{i}", f"SO/200_crit/x{i}")[i % 3]
            want.append((name, data) + add(f, name, data, s, exps, ae, he, fac, a, h, i % 4 == 3))
    n = 0
    try:
        for mode in ("soap", "swiftsimio"):
            f = opened(path, k, mode)
            for i, ((exps, ae, he, fac), (name, data, no, cosmo)) in enumerate(zip(items, want)):
                what = f"{mode} dataset with exponents {exps}, a^{ae} h^{he}, a={a}, h={h}, unit system {s}, conversion factors to CGS {no}, with cosmology {cosmo}"
                parts = name.split("/")
                d = f[name] if (i + k) % 2 else None
                if d is None:
                    d = f
                    for p in parts:
                        d = d[p]
                key = SLICES[(i + k) % len(SLICES)] if np.ndim(data) else ()
                if mode == "soap" and exps.get("I"):
                    continue
                expect_error = mode == "swiftsimio" and (he != 0 or (ae != 0 and ae != exps.get("L", 0)))
                n += 1
                try:
                    x = d[key]
                except ValueError as e:
                    if expect_error:
                        continue
                    raise
                if expect_error:
                    fail(f"{what}: was read as {x!r}, although it is neither physical nor comoving")
                e = np.asarray(data)[key]
                v = np.asarray(x)
                if v.shape != e.shape or v.dtype != e.dtype or not np.array_equal(v, e):
                    fail(f"{what}: {key} is {v!r}, stored was {e!r}")
                if mode == "soap":
                    cgs = float((1.0 * x.units).in_cgs().value)
                    if not close(cgs, cosmo):
                        fail(f"{what}: unit {x.units} is {cgs} in CGS")
                    p = powers(x.units)
                    if abs(p.get("a", 0.0) - ae) > 1e-6 or abs(p.get("h", 0.0) - he) > 1e-6:
                        fail(f"{what}: unit {x.units} depends on a^{p.get('a', 0.0)} h^{p.get('h', 0.0)}")
                    if e.size:
                        y = x.astype(float).in_cgs()
                        if not close(np.asarray(y, dtype=float), np.asarray(e, dtype=float) * cosmo):
                            fail(f"{what}: {e.tolist()} is {y!r} in CGS")
                else:
                    if bool(x.comoving) != (ae != 0):
                        fail(f"{what}: comoving is {x.comoving}")
                    cf = x.cosmo_factor
                    if not close(float(cf.a_factor), a**ae):
                        fail(f"{what}: scale factor dependence {cf}, value {cf.a_factor}")
                    if not close(float((1.0 * x.units).in_cgs().value), no):
                        fail(f"{what}: unit {x.units} in CGS is {(1.0 * x.units).in_cgs()}")
                    if e.size:
                        with warnings.catch_warnings():
                            y = x.astype(float).to_physical()
                            y = np.asarray(y, dtype=float) * float((1.0 * y.units).in_cgs().value)
                        if not close(y, np.asarray(e, dtype=float) * cosmo):
                            fail(f"{what}: {e.tolist()} is {y!r} in physical CGS")
                if not exps.get("I"):
                    u = {str(q).strip("()"): float(v) for q, v in x.units.dimensions.as_powers_dict().items() if q.is_Symbol}
                    w = {n: float(exps[q]) for n, q in (("length", "L"), ("mass", "M"), ("time", "t"), ("temperature", "T")) if exps.get(q)}
                    if u.keys() != w.keys() or any(abs(u[q] - w[q]) > 1e-6 for q in u):
                        fail(f"{what}: unit {x.units} has dimensions {x.units.dimensions}")
                if d.shape != np.shape(data) or dict(d.obj.attrs).keys() != d.attrs.keys():
                    fail(f"{what}: shape {d.shape}, attributes {sorted(d.attrs)}")
            f.close()
        return {"counts": {"datasets": n, "nontrivial": n}}
    finally:
        os.unlink(path)


DIMENSIONS = {"a": {}, "h": {}, "swift_mpc": {"length": 1}, "swift_msun": {"mass": 1}, "newton_G": {"length": 3, "mass": -1, "time": -2}}


def dimensions(u):
    """Of the units below"""
    res = {}
    sign = 1
    for part in re.split(r"(?<!\*)([*/])(?!\*)", u):
        if part in "*/":
            sign = 1 if part == "*" else -1
            continue
        name, _, e = part.partition("**")
        d = DIMENSIONS.get(name) or ({} if name in DIMENSIONS else {name.split("_")[1]: 1})
        for q, x in d.items():
            res[q] = res.get(q, 0) + sign * x * float(e or 1)
    return {q: x for q, x in res.items() if x}


def file_case(case):
    """names, constants and cosmology"""
    import h5py
    snap, code, a, h, k = case
    s, c = SYS[snap], SYS[code] if code is not None else None
    path = os.path.join(CHK.scratch.path, f"f{os.getpid()}.hdf5")
    with h5py.File(path, "w") as f:
        create(f, s, c, a, h)
        add(f, "PartType1/Coordinates", np.arange(6.0).reshape(2, 3), s, dict(L=1), 1, 0, 1, a, h, False)
        add(f, "PartType1/Masses", np.arange(2.0), s, dict(M=1), 0, 0, 1, a, h, False)
        f["PartType1"].attrs["note"] = 7
    try:
        for mode in ("soap", "swiftsimio"):
            f = opened(path, k, mode)
            units = [("a", a), ("h", h), ("swift_mpc", 1e6 * CONST["parsec"]), ("swift_msun", CONST["solar_mass"]), ("newton_G", CONST["newton_G"]), ("snap_length", s["L"]), ("snap_mass", s["M"]), ("snap_time", s["t"]),
                     ("snap_temperature", s["T"]), ("snap_length/snap_time**2*a**-1", s["L"] / s["t"]**2 / a), ("snap_mass/snap_length**3*h**2*a**-3", s["M"] / s["L"]**3 * h**2 / a**3)]
            if c is not None:
                units += [("code_length", c["L"]), ("code_mass", c["M"]), ("code_time", c["t"]), ("code_temperature", c["T"]), ("code_mass*code_length/code_time", c["M"] * c["L"] / c["t"])]
            for u, w in units:
                v = float((1.0 * f.get_unit(u)).in_cgs().value)
                if not close(v, w):
                    fail(f"unit {u} is {v} in CGS, should be {w} (a={a}, h={h}, units {s}, internal {c})")
                d = {str(q).strip("()"): float(x) for q, x in f.get_unit(u).dimensions.as_powers_dict().items() if q.is_Symbol}
                if {q: x for q, x in d.items() if x} != dimensions(u):
                    fail(f"unit {u} has dimensions {f.get_unit(u).dimensions}")
                v = float((1.0 * f["PartType1"].get_unit(u)).in_cgs().value)
                if not close(v, w):
                    fail(f"unit {u} of a group is {v} in CGS, should be {w}")
            if set(f.keys()) != {"Header", "Units", "Cosmology", "PhysicalConstants", "PartType1"} | ({"InternalCodeUnits"} if c is not None else set()):
                fail(f"groups {sorted(f.keys())}")
            g = f["PartType1"]
            if sorted(g) != ["Coordinates", "Masses"] or len(g) != 2 or "Masses" not in g or "Velocities" in g or g.attrs["note"] != 7:
                fail(f"group has {sorted(g)}")
            if f.expansion_factor != a or g.expansion_factor != a or abs(f.cosmology.Om0 - 0.3) > 1e-12 or abs(f.cosmology.Ode0 - 0.7) > 1e-12:
                fail(f"cosmology {f.cosmology}, expansion factor {f.expansion_factor}")
            H = float(f.cosmology.H0.to("1/s").value)
            if not close(H, 70.0 / s["t"], 1e-5):
                fail(f"H0 is {H} per second, stored was 70 in units of {s['t']} s")
            m = g["Masses"]
            p = [v.in_cgs() for n, v in ((n, m[...]) for n in ("Masses",))][0]
            if not close(np.asarray(p)[1:], np.arange(1.0, 2.0) * s["M"]):
                fail(f"masses {p}")
            f.close()
    finally:
        os.unlink(path)
    return None


def main():
    global CHK
    chk = CHK = Check("C22", "exploration")
    if chk.replay_requested({"units": units_case, "files": file_case}):
        return
    t = chk.thorough
    E = (-3, -2, -1, 0, 0.5, 1, 2)
    items = []
    for L, M, T, tt in itertools.product(E, (-1, 0, 1, 0.5) if t else (-1, 0, 1), (-1, 0, 1, 2) if t else (-1, 0, 1), E if t else (-2, -1, 0, 1, 0.5)):
        ex = {n: v for n, v in zip("LMTt", (L, M, T, tt)) if v}
        if t:
            ahf = list(itertools.product((0, L, 1, -2), (0, -1), (1.0, 2.5)))
        else:
            ahf = list(itertools.product((0, L, (1, -3)[len(items) // 10 % 2]), (0, (-1, 2)[len(items) // 10 % 2]), (1.0, (2.5, 1 + 1e-6, 1e-3)[len(items) % 3])))
        items += [(ex,) + x for x in ahf]
    for I in (-1, 1, 2):
        for L, M, tt in itertools.product((0, 1, -1), (0, 1), (0, -2)):
            items.append(({n: v for n, v in dict(I=I, L=L, M=M, t=tt).items() if v}, L, 0, 1.0))
    for ae in range(-6, 7):
        for he in range(-3, 4):
            items.append((dict(L=ae, M=1) if he % 2 else dict(L=2), ae, he, 1.0))
            items.append(({}, ae, he, 1.0))
    # any exponent a single precision number can hold, of each base unit, the scale factor and the Hubble parameter
    for x in (0.25, -0.25, 0.75, 1.5, -1.5, 2.5, 1.25, 0.125, 3, -4, 5, -7, 10, 1 / 3, -2 / 3, 5 / 3, 4 / 3, -1 / 6, 0.1, 1.2, 0.7, 1.05, 2.96875):
        x = float(np.float32(x))
        for q in "LMTt":
            items.append(({q: x}, 0, 0, 1.0))
            items.append(({q: x, "LMTt"["LMTt".index(q) - 1]: -1}, 0, 0, (1.0, 2.5)[len(items) % 2]))
        items.append((dict(L=x, M=1), x, 0, 1.0))
        items.append((dict(L=x, M=1), x, 0, 3.0))
        items.append((dict(L=1), 0, x, 1.0))
        items.append((dict(L=2), x, 1, 1.0))
        items.append(({}, x, -x, 1.0))
    cs = []
    A = [(0.5, 0.7), (1.0, 0.681), (0.2, 1.0), (0.037, 0.7)]
    B = 24
    for i in range(0, len(items), B):
        j = i // B
        for r in range(3 if t else 1):
            a, h = A[(j + r) % 4]
            cs.append(((j + r) % 3, (None, 1, 2, 0)[(j // 3 + r) % 4], a, h, items[i:i + B], j + r))
    chk.run_cases("units", cs, units_case)
    chk.run_cases("files", [(s, c, a, h, k) for k, (s, c, (a, h)) in enumerate(itertools.product(range(3), (None, 0, 1, 2), A))], file_case)
    chk.assumptions = ["SOAP mode: quantities without electric current (not supported by the reader); swiftsimio mode refuses h dependence and powers of a other than 0 or that of length", "units compared to 1e-8"]
    chk.finish(rule="every combination of exponents of length (7 values), mass (3), temperature (3) and time (5) with 10-12 combinations of scale factor and Hubble exponents and extra factors, thorough 7x4x4x7 with all 16 combinations of scale factor and Hubble exponents and extra factors; all powers -6..6 of a with -3..3 of h; 23 other exponents, in single precision, of each; "
                    "3 unit systems, with or without internal units, 4 scale factors; 6 array types and 6 slices; both modes; non-trivial: every dataset",
               extra={"states": chk.cov.get("datasets", 0)})


if __name__ == "__main__":
    main()
