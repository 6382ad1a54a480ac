"""C09: gathering arrays, completing empty ranks, parsing arguments"""
import contextlib
import io
import itertools
import os
import numpy as np
from mc.framework import Check, use_repo, REPO
from mc import mpicheck as M, enum as E
from mc import simmpi as S

use_repo()
DT = ["int64", "float32", "uint8", "uint64", "int32", "float64", "int16"]


def block(shape, axis, sizes, dt):
    """The global array and its parts"""
    full = list(shape)
    full[axis] = sum(sizes)
    a = (np.arange(int(np.prod(full))) % 251 + 1).astype(dt).reshape(full)
    parts, o = [], 0
    for s in sizes:
        ix = [slice(None)] * len(full)
        ix[axis] = slice(o, o + s)
        parts.append(a[tuple(ix)])
        o += s
    return a, parts


# ("G", shape (axis entry ignored), axis, sizes, dtype, root or "all", order)
def g_args(case):
    _, shape, axis, sizes, dt, root, order = case
    a, parts = block(shape, axis, sizes, dt)
    return len(sizes), [(np.array(p, order=order), axis, root) for p in parts]


def g_prog(rank, comm, mods, a, axis, root):
    g = mods["virgo.mpi.gather_array"]
    a0 = a.copy()
    if root == "all":
        out = g.allgather_array(a, comm=comm, axis=axis) if axis else g.allgather_array(a, comm=comm)
    elif root == "none":
        out = g.gather_array(a, root=None, comm=comm, axis=axis)
    elif root == "default":
        out = g.gather_array(a, axis=axis) if axis else g.gather_array(a)
    else:
        out = g.gather_array(a, root=root, comm=comm, axis=axis)
    return None if out is None else np.array(out), bool(np.array_equal(a, a0))


def g_oracle(case, vals):
    _, shape, axis, sizes, dt, root, order = case
    a, _ = block(shape, axis, sizes, dt)
    for r, (v, same) in enumerate(vals):
        if not same:
            return f"rank {r}: input modified"
        expect = root in ("all", "none") or r == (0 if root == "default" else root)
        if not expect:
            if v is not None:
                return f"rank {r} got an array though it is not the root"
            continue
        if v is None or v.shape != a.shape or v.dtype != a.dtype or not np.array_equal(v, a):
            return f"rank {r}: got {None if v is None else (v.shape, v.dtype, v.tolist())}, expected {a.shape, a.dtype, a.tolist()}"


GATHER = M.Spec("gather", ("virgo.mpi.gather_array",), g_prog, g_args, g_oracle, sub=lambda c: c[5] != "default")


# ("N", per rank None or length, trailing shape, dtype)
def n_args(case):
    _, have, trail, dt = case
    out = []
    for h in have:
        if h is None:
            out.append((None,))
        else:
            n = h * int(np.prod(trail, dtype=int))
            if dt == "pair":
                a = np.zeros(n, dtype=E.pair_t)
                a["a"] = np.arange(n) + 1
            else:
                a = (np.arange(n) + 1).astype(dt)
            out.append((a.reshape((h,) + trail),))
    return len(have), out


def n_prog(rank, comm, mods, a):
    u = mods["virgo.mpi.util"]
    dt, dims = u.broadcast_dtype_and_dims(a, comm)
    out = u.replace_none_with_zero_size(a, comm)
    same = (out is a) or (a is not None and out is not None and np.array_equal(out, a))
    return (None if out is None else np.array(out)), dt, (None if dims is None else tuple(dims)), bool(same)


def n_oracle(case, vals):
    _, have, trail, dt = case
    first = next((i for i, h in enumerate(have) if h is not None), None)
    dtype = E.pair_t if dt == "pair" else np.dtype(dt)
    for r, (out, d, dims, same) in enumerate(vals):
        if first is None:
            if out is not None or d is not None or dims is not None:
                return f"rank {r}: got {out}, {d}, {dims} though no rank has data"
            continue
        if d != dtype or dims != trail:
            return f"rank {r}: reported {d} {dims}, expected {dtype} {trail}"
        if have[r] is None:
            if out is None or out.shape != (0,) + trail or out.dtype != dtype:
                return f"rank {r}: placeholder is {None if out is None else (out.shape, out.dtype)}, expected {(0,) + trail} {dtype}"
        elif out is None or not same or out.dtype != dtype or out.shape != (have[r],) + trail:
            return f"rank {r}: its array was changed"


NONE = M.Spec("complete", ("virgo.mpi.util",), n_prog, n_args, n_oracle, sub=True)


# ("P", per rank argv)
def p_args(case):
    return len(case[1]), [(list(a),) for a in case[1]]


def p_prog(rank, comm, mods, argv):
    u = mods["virgo.mpi.util"]
    p = u.MPIArgumentParser(comm, description="test")
    p.add_argument("n", type=int)
    p.add_argument("--name", default="x", choices=["x", "y"])
    p.add_argument("--flag", action="store_true")
    try:
        r = p.parse_args(argv)
    except SystemExit:
        return "exit"
    return (r.n, r.name, r.flag)


def valid(argv):
    import argparse
    p = argparse.ArgumentParser(exit_on_error=False)
    p.add_argument("n", type=int)
    p.add_argument("--name", default="x", choices=["x", "y"])
    p.add_argument("--flag", action="store_true")
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            r = p.parse_args(list(argv))
        return (r.n, r.name, r.flag)
    except (argparse.ArgumentError, SystemExit):
        return "exit"


def p_oracle(case, vals):
    want = valid(case[1][0])
    for r, v in enumerate(vals):
        if v != want:
            return f"rank {r} got {v}, expected {want}"


PARSE = M.Spec("parse", ("virgo.mpi.util",), p_prog, p_args, p_oracle, sub=True)
SPECS = [GATHER, NONE, PARSE]


def g_cases(t):
    k = 0
    for nr, nmax in ((1, 3), (2, 3), (3, 3), (4, 2), (5, 2)):
        roots = ["all", "none", "default"] + list(range(nr))
        for n in range(nmax + 1):
            for sizes in E.compositions(n, nr):
                for shape, axes in (((0,), (0,)), ((0, 2), (0, 1)), ((2, 0, 3), (0, 1, 2)), ((0, 1), (0, 1)), ((1, 2, 0), (2,))):
                    for axis in axes:
                        for root in roots:
                            sh = list(shape)
                            sh = [3 if (x == 0 and i != axis) else x for i, x in enumerate(sh)]
                            sh[axis] = 0
                            yield ("G", tuple(sh), axis, sizes, DT[k % len(DT)], root, "CF"[k % 2])
                            k += 1
    for nr in (3, 6):
        for axis in (0, 1, 2):
            for sizes in ((7,) * nr, tuple(range(nr)), tuple(reversed(range(nr))), (0,) * (nr - 1) + (11,)):
                for root in ("all", 0, nr - 1):
                    yield ("G", (3, 4, 5), axis, sizes, DT[k % len(DT)], root, "CF"[k % 2])
                    k += 1


def n_cases(t):
    k = 0
    for nr in (1, 2, 3, 4, 5):
        for have in itertools.product((None, 0, 1, 3) if nr < 5 else (None, 2), repeat=nr):
            for trail in ((), (3,), (2, 2)) if nr < 4 else ((), (3,)):
                yield ("N", have, trail, (DT + ["pair", "bool", "S4"])[k % 10])
                k += 1


def p_cases(t):
    argvs = [["3"], ["4", "--flag"], ["5", "--name", "y"], [], ["abc"], ["5", "--name", "z"], ["1", "2"], ["--nosuch", "1"]]
    for nr in (1, 2, 3):
        for combo in itertools.product(argvs if nr < 3 else argvs[:6:2] + argvs[3:5], repeat=nr):
            yield ("P", tuple(tuple(a) for a in combo))


def main():
    chk = Check("C09", "model_checking")
    fs = {s.name: (lambda c, s=s: (S.install(), s.sim_case(c))[1]) for s in SPECS}
    if chk.replay_requested(fs):
        return
    tot = 0
    for spec, cases, real in ((GATHER, g_cases(chk.thorough), 200), (NONE, n_cases(chk.thorough), 150), (PARSE, p_cases(chk.thorough), 0)):
        cases = list(cases)
        tot += len(cases)
        M.run_spec(chk, "checks.c09", spec, cases, nreal=real)
    # Under the real library an error must end every process (parse_args calls MPI_Finalize)
    if not chk.violations:
        real_parser(chk)
    chk.assumptions = ["gathered arrays have a native numeric dtype, the same on all ranks"]
    chk.finish(rule="every division, axis, root and shape within bounds; every pattern of ranks without data; every combination of argument lists", extra={"states": tot})


def real_parser(chk):
    import subprocess, sys, tempfile
    code = ("import sys\nsys.path.insert(0, " + repr(REPO + "/python") + ")\nfrom mpi4py import MPI\nfrom virgo.mpi.util import MPIArgumentParser\n"
            "p = MPIArgumentParser(MPI.COMM_WORLD)\np.add_argument('n', type=int)\na = p.parse_args()\nMPI.COMM_WORLD.Barrier()\n"
            "sys.stdout.write('N=%d\\n' % a.n)\nsys.stdout.flush()\n")
    n = 0
    for argv, want in ((["7"], 3), (["x"], 0), ([], 0)):
        for _ in range(2):     # mpirun itself may fail: what counts must happen again
            try:
                p = subprocess.run(["mpirun", "--oversubscribe", "-np", "3", sys.executable, "-c", code] + argv, capture_output=True, text=True, timeout=40)
                got = p.stdout.count("N=7")
                bad = got != want
            except subprocess.TimeoutExpired:
                bad, got = True, "no end"
            if not bad:
                break
        if bad:
            chk.violation(f"3 ranks with arguments {argv}: {got} ranks continued, expected {want}", argv, "real parser")
        n += 1
    chk.count("traces_validated_against_impl", n)


if __name__ == "__main__":
    main()
