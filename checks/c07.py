"""C07: every parallel routine under every schedule of its ranks, in every buffering mode of the library"""
import importlib
import itertools
import numpy as np
from mc.framework import Check, use_repo
from mc import mpicheck as M, enum as E
from mc import simmpi as S

use_repo()
MODES = [S.Mode(True, False, False), S.Mode(False, False, False), S.Mode(False, True, True), S.Mode(True, True, True)]


# routines which the other checks reach only through others: ("S", sizes, pattern, ranks wanted)
def s_args(case):
    _, sizes, pat, r = case
    a = E.values("int64", pat, 3)
    return len(sizes), [(np.sort(x), list(r)) for x in E.split(a, sizes)]


def s_prog(rank, comm, mods, arr, r):
    ps = mods["virgo.mpi.parallel_sort"]
    v, lo, hi = ps.find_splitting_points(arr, r, comm)
    g = ps.gather_to_first_rank(arr, comm)
    return [x.item() for x in np.asarray(v)], [int(x) for x in lo], [int(x) for x in hi], (None if g is None else g.tolist())


def s_oracle(case, vals):
    _, sizes, pat, r = case
    a = E.values("int64", pat, 3)
    s = np.sort(a)
    lo = np.searchsorted(s, s[list(r)], "left").tolist()
    hi = (np.searchsorted(s, s[list(r)], "right") - 1).tolist()
    allg = [x for p in E.split(a, sizes) for x in np.sort(p).tolist()]
    for k, v in enumerate(vals):
        if v[0] != s[list(r)].tolist() or v[1] != lo or v[2] != hi:
            return f"rank {k}: splitting points {v}, expected {s[list(r)].tolist(), lo, hi}"
        if v[3] != (allg if k == 0 else None):
            return f"rank {k}: gathered {v[3]}"


SPLIT = M.Spec("splitting", ("virgo.mpi.parallel_sort",), s_prog, s_args, s_oracle)
SPECS = [SPLIT]


def s_cases(t):
    for nr, nmax in ((1, 3), (2, 4), (3, 4)):
        for n in range(nr, nmax + 1):
            for sizes in E.compositions(n, nr):
                if 0 in sizes:
                    continue
                for p in E.weak_orders(n):
                    for r in ((0,), tuple(range(n)), (n - 1, 0)):
                        yield ("S", sizes, p, r)


def source(name):
    """Yields (check module, index of spec, case, alltoallv method)"""
    t = False
    m = {n: importlib.import_module("checks." + n) for n in ("c01", "c02", "c03", "c04", "c05", "c06", "c08", "c09", "c10")}
    if name == "sort":
        return "c01", 0, [((1, 1), (1, 0), "int64", 0, 1), ((2, 2), (0, 1, 0, 1), "pair", 0, 1), ((3, 1), (0, 0, 0, 0), "uint64", 0, 0), ((1, 2), (2, 1, 0), "float64", 0, 1),
                          ((0, 3), (1, 0, 1), "int64", 0, 1), ((1, 1, 1), (2, 1, 0), "int64", 0, 1), ((1, 0, 2), (1, 0, 1), "int32", 0, 1), ((2, 1, 1), (3, 2, 1, 0), "int64", 0, 0),
                          ((0, 0, 2), (1, 0), "int64", 0, 1), ((0, 0, 0), (), "int64", 0, 1), ((2, 0, 2), (0, 0, 0, 0), "int64", 0, 1)]
    if name == "match":
        return "c02", 0, [((1, 1), (1, 0), (1, 1), (0, 1), "int64", 0, 0), ((2, 0), (1, 0), (0, 2), (0, 0), "int64", 0, 1), ((1, 1), (0, 1), (2, 1), (1, 0, 1), "float64", 0, 0),
                          ((0, 2), (0, 0), (1, 1), (0, 0), "uint64", 0, 1), ((0, 0), (), (1, 1), (0, 1), "int64", 0, 0), ((1, 1), (0, 1), (0, 0), (), "int64", 0, 0),
                          ((1, 0, 1), (0, 1), (0, 1, 1), (1, 0), "int64", 0, 0), ((1, 1, 1), (0, 1, 0), (2, 0, 1), (0, 0, 1), "int32", 0, 0)]
    if name == "unique":
        return "c03", 0, [(s, p, d, 0) + o for s, p, d in (((1, 1), (0, 0), "int64"), ((2, 1), (1, 0, 1), "float64"), ((0, 2), (0, 1), "int64"), ((1, 0, 1), (0, 0), "int64"), ((1, 1, 1), (0, 0, 0), "pair"))
                          for o in ((False, True, True), (True, True, True), (False, False, False))]
    if name == "move":
        return "c04", 0, [c for c in m["c04"].rep_cases(t) if 2 <= len(c[1]) <= 3 and 0 < sum(c[1]) <= 3]
    if name == "fetch":
        return "c04", 1, [c for c in m["c04"].fetch_cases(t) if 2 <= len(c[1]) <= 3 and 0 < sum(c[1]) <= 2 and sum(map(len, c[2])) <= 2]
    if name == "alltoallv":
        return "c05", 0, [("A", mat, "int64", meth, 0) for mat in (((0, 1), (1, 0)), ((1, 2), (0, 3)), ((0, 1, 0), (0, 0, 1), (1, 0, 0)), ((1, 1, 1), (1, 1, 1), (1, 1, 1)), ((0, 0, 2), (0, 0, 1), (0, 0, 0)), ((2, 0, 0), (1, 0, 1), (0, 3, 0)))
                          for meth in ("hypercube", "async")]
    if name == "update":
        return "c06", 0, [c for c in m["c06"].u_cases(t) if 2 <= len(c[1]) <= 3 and 0 < sum(c[1]) <= 2 and sum(map(len, c[2])) <= 2]
    if name == "bincount":
        return "c06", 1, [c for c in m["c06"].b_cases(t) if 2 <= len(c[1]) <= 3 and sum(map(len, c[1])) <= 2]
    if name == "membership":
        return "c08", 0, [c for nr in (2, 3) for c in m["c08"].small(nr, 3, 2) if sum(c[2])]
    if name == "gather":
        return "c09", 0, [c for c in m["c09"].g_cases(t) if 2 <= len(c[3]) <= 3]
    if name == "complete":
        return "c09", 1, [c for c in m["c09"].n_cases(t) if 2 <= len(c[1]) <= 3]
    if name == "parse":
        return "c09", 2, [c for c in m["c09"].p_cases(t) if 2 <= len(c[1]) <= 3]
    if name == "halos":
        return "c10", 0, [c for c in m["c10"].cases_match(t) if 2 <= len(c[2]) <= 3 and len(c[0]) <= 3]
    if name == "consistent":
        return "c10", 1, [c for c in m["c10"].cases_cons(t) if 2 <= len(c[2]) <= 3 and len(c[1]) <= 2]
    if name == "splitting":
        return "c07", 0, list(s_cases(t))


FAMILIES = {"sort": 11, "match": 8, "unique": 15, "move": 24, "fetch": 12, "alltoallv": 12, "update": 10, "bincount": 10, "membership": 12, "gather": 16,
            "complete": 16, "parse": 24, "halos": 8, "consistent": 12, "splitting": 16}


def case_fn(case):
    """(module, spec index, case, method, executions per mode)"""
    mod, si, c, method, budget = case
    spec = importlib.import_module("checks." + mod).SPECS[si]
    n = spec.args(c)[0]
    inner = spec.rank_fn()

    def fn(rank, comm, *a):
        ps = S.rank_modules(rank, ("virgo.mpi.parallel_sort",))["virgo.mpi.parallel_sort"]
        keep = getattr(ps, "default_alltoallv_method", None)
        if method == "async":
            ps.default_alltoallv_method = "async"
        try:
            return inner(rank, comm, *a)
        finally:
            if keep is not None:
                ps.default_alltoallv_method = keep
    counts = {"schedules": 0, "transitions": 0}
    first = {}
    for mode in MODES:
        bad = []

        def visit(out, choices):
            if out.failure is not None and out.failure[0] == "unsupported":
                bad.append(None)
                return True
            v = spec.judge(c, out)
            if not v:
                r = repr(out.values())
                if first.setdefault("v", r) != r:
                    v = f"the result depends on the schedule: {r[:300]} / {first['v'][:300]}"
            if v:
                bad.append(f"{spec.name}, {method} exchange, {mode!r}, schedule {list(choices)}: {v}")
                return True
            return False
        done = -1
        for bound in range(0, 6):
            runs, points, capped = S.explore(n, fn, lambda: spec.args(c)[1], mode, bound, visit, limit=budget)
            counts["schedules"] += runs
            counts["transitions"] += points
            if bad:
                break
            if capped:
                break
            done = bound
            if n == 1:
                break
            if runs * (2 + bound) * 4 > budget * 3:
                break
        if bad:
            if bad[0] is None:
                return {"counts": {"unsupported": 1}}
            return {"violation": bad[0], "counts": counts}
        k = f"explored_all_with_{done}_preemptions" if done >= 0 else "bound_0_not_completed"
        counts[k] = counts.get(k, 0) + 1
    return {"counts": counts, "outcome": first["v"]}


def main():
    chk = Check("C07", "model_checking")
    S.install()
    if chk.replay_requested({"": case_fn}):
        return
    t = chk.thorough
    total = 0
    for name, k in FAMILIES.items():
        if chk.args.family and not name.startswith(chk.args.family):
            continue
        mod, si, cs = source(name)
        cs = M.pick(cs, k * (4 if t else 1))
        budget = 8000 if t else 320
        uses = name not in ("gather", "complete", "parse", "splitting", "alltoallv")
        cases = [(mod, si, c, meth, budget) for i, c in enumerate(cs) for meth in (("hypercube", "async") if uses and (t or i % 2 == 0) else ("default",))]
        total += len(cases)
        res = chk.run_cases(name, cases, case_fn, limit=600)
        if res and res["counts"].get("unsupported"):
            chk.errors.append((f"{name}: {res['counts']['unsupported']} case(s) use MPI calls which the simulation does not provide", ""))
    # the simulated executions agree with the real library: replay the programs under mpirun
    for name in FAMILIES:
        if name == "parse":
            continue   # an error in the arguments ends MPI
        if chk.args.family and not name.startswith(chk.args.family):
            continue
        mod, si, cs = source(name)
        spec = importlib.import_module("checks." + mod).SPECS[si]
        by = M.group_by_ranks(spec, M.pick(cs, 24))
        if not chk.violations:
            M.real_check(chk, "checks." + mod, spec, {n: c for n, c in by.items() if n in (2, 3)})
    chk.assumptions = ["2 and 3 ranks, inputs of at most a few elements; schedules are explored by increasing number of preemptions until a budget of executions per case and mode",
                       "a schedule decides which rank runs next at each MPI call; computation between MPI calls is local to the rank"]
    chk.finish(rule="every schedule with up to the recorded number of preemptions of each case, in four modes of the library (buffered or synchronous sends, strict or late delivery); results must agree with the oracle and with each other",
               extra={"states": chk.cov.get("schedules", 0)})


if __name__ == "__main__":
    main()
