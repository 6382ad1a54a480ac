"""C05: chunked all-to-all and pairwise exchange"""
import itertools
import numpy as np
from mc.framework import Check, use_repo
from mc import mpicheck as M, enum as E
from mc import simmpi as S

use_repo()

# Element types so large that the library's 100 MB message limit means 1, 2 or 3 elements.
# Only the field "v" exists; the rest is never touched, so memory stays virtual.
def big_t(mb):
    return np.dtype({"names": ["v"], "formats": [np.int64], "offsets": [0], "itemsize": mb * 1024 * 1024})


DTYPES = {"int64": np.dtype(np.int64), "uint8": np.dtype(np.uint8), "pair": E.pair_t,
          "100MB": big_t(100), "60MB": big_t(60), "50MB": big_t(50), "33MB": big_t(33)}


def fill(a, vals):
    if a.dtype.names == ("v",):
        a["v"] = vals
    elif a.dtype == E.pair_t:
        a["a"], a["b"] = vals, -np.asarray(vals)
    else:
        a[...] = np.asarray(vals).astype(a.dtype)


def get(a):
    if a.dtype.names == ("v",):
        return a["v"].tolist()
    if a.dtype == E.pair_t:
        return [int(x) if int(x) == -int(y) else f"torn({x},{y})" for x, y in zip(a["a"], a["b"])]
    return a.tolist()


# all-to-all: ("A", count matrix [src][dst], dtype, method, layout)
# layout 0: packed in rank order; 1: gaps, destinations in reverse order
def offsets(counts, layout):
    if layout == 0:
        o = np.cumsum([0] + list(counts))[:-1]
        return list(int(x) for x in o), int(sum(counts))
    o = [0] * len(counts)
    pos = 1
    for i in reversed(range(len(counts))):
        o[i] = pos
        pos += counts[i] + 1
    return o, pos


def val(src, dst, i):
    return (1 + (src * 9 + dst) * 7 + i) % 251


def a_args(case):
    _, mat, dt, method, layout = case
    n = len(mat)
    out = []
    for r in range(n):
        scount = list(mat[r])
        rcount = [mat[s][r] for s in range(n)]
        so, sl = offsets(scount, layout)
        ro, rl = offsets(rcount, layout)
        out.append((r, n, scount, so, sl, rcount, ro, rl, dt, method))
    return n, out


def a_prog(rank, comm, mods, r, n, scount, so, sl, rcount, ro, rl, dt, method):
    ps = mods["virgo.mpi.parallel_sort"]
    send = np.zeros(sl, dtype=DTYPES[dt])
    recv = np.zeros(rl, dtype=DTYPES[dt])
    for d in range(n):
        if scount[d]:
            fill(send[so[d]:so[d] + scount[d]], [val(r, d, i) for i in range(scount[d])])
    if rl:
        fill(recv, [100] * rl)
    before = get(send)
    arr = np.asarray
    if method == "default":
        ps.my_alltoallv(send, arr(scount), arr(so), recv, arr(rcount), arr(ro), comm=comm)
    else:
        ps.my_alltoallv(send, arr(scount), arr(so), recv, arr(rcount), arr(ro), comm=comm, method=method)
    return get(recv), get(send) == before


def a_oracle(case, vals):
    _, mat, dt, method, layout = case
    n = len(mat)
    for r in range(n):
        rcount = [mat[s][r] for s in range(n)]
        ro, rl = offsets(rcount, layout)
        want = [100] * rl
        for s in range(n):
            for i in range(rcount[s]):
                want[ro[s] + i] = val(s, r, i)
        if vals[r][0] != want:
            return f"rank {r} received {vals[r][0]}, expected {want}"
        if not vals[r][1]:
            return f"rank {r}: the send buffer changed"


ALL = [(m, p) for m, p in ((S.Mode(True, False, False), S.Policy), (S.Mode(False, True, True), S.LastFirst), (S.Mode(True, True, True), S.RoundRobin), (S.Mode(False, False, False), S.RoundRobin))]
A2A = M.Spec("alltoallv", ("virgo.mpi.parallel_sort",), a_prog, a_args, a_oracle, modes=ALL, sub=True)


# pairwise: ("P", n01, n10, dtype, nchunk) between ranks 0 and 1; larger: ring of pairs on 4 ranks
def p_args(case):
    nlist, dt, nchunk = case[1:4]
    room = case[4] if len(case) > 4 else (0,) * len(nlist)    # longer receive buffers
    n = len(nlist)
    return n, [(r, (r ^ 1), nlist[r], nlist[r ^ 1] + room[r], dt, nchunk) for r in range(n)]


def p_prog(rank, comm, mods, r, dest, ns, nr, dt, nchunk):
    ps = mods["virgo.mpi.parallel_sort"]
    send = np.zeros(ns, dtype=DTYPES[dt])
    recv = np.zeros(nr, dtype=DTYPES[dt])
    if ns:
        fill(send, [val(r, dest, i) for i in range(ns)])
    if nr:
        fill(recv, [100] * nr)
    if nchunk is None:
        ps.sendrecv(dest, send, recv, comm=comm)
    else:
        ps.sendrecv(dest, send, recv, comm=comm, nchunk=nchunk)
    return get(recv)


def p_oracle(case, vals):
    nlist = case[1]
    for r in range(len(nlist)):
        want = [val(r ^ 1, r, i) for i in range(nlist[r ^ 1])] + [100] * (case[4][r] if len(case) > 4 else 0)
        if vals[r] != want:
            return f"rank {r} received {vals[r]}, expected {want}"


PAIR = M.Spec("sendrecv", ("virgo.mpi.parallel_sort",), p_prog, p_args, p_oracle, modes=ALL, sub=True)
SPECS = [A2A, PAIR]


def a_cases(t):
    k = 0
    methods = ("hypercube", "async", "default")
    small = ("int64", "uint8", "pair")
    # one and two ranks: counts to 4 at every chunk limit
    for n, cmax in ((1, 4), (2, 3), (3, 1)) + (((2, 5),) if t else ()):
        for flat in itertools.product(range(cmax + 1), repeat=n * n):
            mat = tuple(tuple(flat[i * n:(i + 1) * n]) for i in range(n))
            for meth in ("hypercube", "async"):
                yield ("A", mat, small[k % 3], meth if k % 11 else "default", k % 2)
                k += 1
    # chunking: element types of 100, 60(limit 1), 50 (limit 2), 33 (limit 3) MB
    for n, vals_ in ((2, (0, 1, 2, 3, 4)), ):
        for flat in itertools.product(vals_, repeat=n * n):
            mat = tuple(tuple(flat[i * n:(i + 1) * n]) for i in range(n))
            for meth in ("hypercube", "async"):
                yield ("A", mat, ("100MB", "50MB", "33MB", "60MB")[k % 4], meth, (k // 4) % 2)
                k += 1
    # more data than fits in 2 GB: no single message may be that large
    for mat in (((0, 25), (0, 0)), ((0, 0), (43, 0)), ((22, 23), (24, 25))):
        for dt in ("100MB", "50MB"):
            for meth in ("hypercube", "async"):
                yield ("A", tuple(tuple(x * (1 if dt == "100MB" else 2) for x in r) for r in mat), dt, meth, 0)
    # three to five ranks: a few values per entry, structured
    for n in (3, 4, 5, 6, 8):
        for a, b, c in itertools.product((0, 1, 2, 5), repeat=3):
            for f in (lambda s, d: a if s == d else (b if s < d else c), lambda s, d: (a, b, c)[(s + d) % 3], lambda s, d: a if d == 0 else (b if s == n - 1 else 0),
                      lambda s, d: c if s == 1 else (b if d == 1 else 0)):
                mat = tuple(tuple(f(s, d) for d in range(n)) for s in range(n))
                for meth in ("hypercube", "async"):
                    big = n <= 4 and k % 5 == 0
                    yield ("A", mat, ("100MB", "50MB", "33MB")[k % 3] if big else small[k % 3], meth, (k // 2) % 2)
                    k += 1


def p_cases(t):
    k = 0
    top = 7 if not t else 10
    for a in range(top):
        for b in range(top):
            for nchunk in (None, 1, 2, 3, 4, 5):
                yield ("P", (a, b), ("int64", "uint8", "pair")[k % 3], nchunk)
                k += 1
                if nchunk != 5:
                    yield ("P", (a, b), ("int64", "uint8", "pair")[k % 3], nchunk, ((0, 1), (5, 2), (1, 0), (8, 8))[k % 4])
    for ns in ((25, 0), (0, 23), (3, 4), (21, 22)):
        for dt in ("100MB", "50MB", "33MB"):
            yield ("P", ns, dt, None)
    for a, b, c, d in itertools.product((0, 1, 3), repeat=4):
        yield ("P", (a, b, c, d), "int64", (1, 2, 3)[k % 3])
        k += 1


def main():
    chk = Check("C05", "model_checking")
    if chk.replay_requested({"alltoallv": lambda c: (S.install(), A2A.sim_case(c))[1], "sendrecv": lambda c: (S.install(), PAIR.sim_case(c))[1],
                             "schedules": lambda c: (S.install(), sched_case(c))[1]}):
        return
    t = chk.thorough
    ac, pc = list(a_cases(t)), list(p_cases(t))
    pbig = [c for c in pc if c[2].endswith("MB")]
    pc = [c for c in pc if not c[2].endswith("MB")]
    chk_limit = [c for c in ac if c[2].endswith("MB")]
    plain = [c for c in ac if not c[2].endswith("MB")]
    M.run_spec(chk, "checks.c05", A2A, plain, nreal=200, family="alltoallv", nontrivial=lambda c: any(map(any, c[1])))
    M.run_spec(chk, "checks.c05", A2A, chk_limit, nreal=0, family="alltoallv beyond the message size limit", nontrivial=lambda c: any(x > 1 for r in c[1] for x in r))
    M.run_spec(chk, "checks.c05", PAIR, pc, nreal=200, family="sendrecv", nontrivial=lambda c: any(c[1]))
    M.run_spec(chk, "checks.c05", PAIR, pbig, nreal=0, family="sendrecv beyond the message size limit")
    # all schedules of small exchanges
    sc = [(c, b) for c, b in sched_cases(t)]
    chk.run_cases("schedules", sc, sched_case)
    chk.assumptions = ["messages beyond 100 MB are modelled with element types of 33-100 MB of which only 8 bytes are data (sparse memory)"]
    chk.finish(rule="every count matrix within bounds, both methods, packed and permuted/gapped layouts, element sizes at which the limit is 1, 2 or 3 elements; every schedule within the preemption bound; non-trivial: something is sent",
               extra={"states": len(ac) + len(pc) + chk.cov.get("schedules", 0)})


def sched_cases(t):
    for mat in (((0, 1), (1, 0)), ((1, 2), (0, 1)), ((0, 2), (3, 0)), ((0, 0), (2, 0))):
        for dt in ("int64", "50MB"):
            for meth in ("hypercube", "async"):
                yield ("A", mat, dt, meth, 0), (3 if t else 2)
    for mat in (((0, 1, 0), (0, 0, 1), (1, 0, 0)), ((1, 1, 1), (1, 1, 1), (1, 1, 1)), ((0, 2, 1), (0, 0, 0), (1, 0, 0))):
        for meth in ("hypercube", "async"):
            yield ("A", mat, "int64", meth, 1), (2 if t else 1)
    for nl in ((2, 1), (0, 2), (3, 3)):
        yield ("P", nl, "int64", 1), 3
        yield ("P", nl, "int64", 2), 2


def sched_case(case):
    c, bound = case
    spec = A2A if c[0] == "A" else PAIR
    bad = []
    runs = pts = 0
    first = {}
    for mode in (S.Mode(True, False, False), S.Mode(False, False, True), S.Mode(False, True, False), S.Mode(True, True, True)):
        def visit(out, choices):
            if out.failure is not None and out.failure[0] == "unsupported":
                return True
            v = spec.judge(c, out)
            if v:
                bad.append(f"schedule {choices} {mode!r}: {v}")
                return True
            return False
        r, p, capped = S.explore(len(spec.args(c)[1]), spec.rank_fn(), lambda: spec.args(c)[1], mode, bound, visit, limit=20000)
        runs += r
        pts += p
        if bad:
            return bad[0]
    return {"counts": {"schedules": runs, "transitions": pts, "schedule_caps_hit": int(capped)}}


if __name__ == "__main__":
    main()
