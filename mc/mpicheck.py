"""
Checks of parallel routines: every case is executed on the simulated MPI (in several
modes of the library and schedules), and a subset again under the real mpirun to
validate the simulation.
"""
import os
import pickle
import subprocess
import sys
import tempfile
import time
import zlib

import numpy as np

from . import simmpi as S
from .framework import VERIF, Check, short_tb

MODES = [(S.Mode(True, False, False), S.Policy), (S.Mode(False, True, True), S.LastFirst)]


class Spec:
    """
    A driver program, its inputs and its oracle. `sub` (True or a function of the case) says that the
    program passes its communicator on explicitly: every SUB-th such case is executed also on a
    communicator which has one rank less than the program, with its ranks in reverse order.
    """
    SUB = 8

    def __init__(self, name, mods, prog, args, oracle, modes=None, sub=None):
        self.name, self.mods, self.prog, self.args, self.oracle = name, mods, prog, args, oracle
        self.modes = modes or MODES
        self.sub = sub

    def sub_case(self, case):
        if not self.sub or (callable(self.sub) and not self.sub(case)):
            return None
        mode, pol = self.modes[0]
        n, args = self.args(case)
        fn = self.rank_fn()

        def split(rank, comm, *a):
            c = comm.Split(1 if rank else S.UNDEFINED, -rank)
            return fn(c.Get_rank(), c, *a) if rank else None
        out = S.execute(n + 1, split, [()] + [args[n - r] for r in range(1, n + 1)], policy=pol(), mode=mode)
        if out.results:
            out.results = [out.results[n - i] for i in range(n)]
        return out

    def rank_fn(self):
        mods, prog = self.mods, self.prog

        def fn(rank, comm, *a):
            return prog(rank, comm, S.rank_modules(rank, mods), *a)
        return fn

    def sim_case(self, case):
        steps = 0
        outcome = None
        for mode, pol in self.modes:
            n, args = self.args(case)
            out = S.execute(n, self.rank_fn(), args, policy=pol(), mode=mode)
            steps += out.steps
            if out.failure is not None and out.failure[0] == "unsupported":
                return {"counts": {"unsupported": 1}}
            v = self.judge(case, out)
            if v:
                return {"violation": f"{self.name}: {v} [{mode!r}]"}
            outcome = repr(out.values())
        runs = len(self.modes)
        if zlib.crc32(repr(case).encode()) % self.SUB == 0:
            out = self.sub_case(case)
            if out is not None:
                runs += 1
                steps += out.steps
                v = self.judge(case, out)
                if v:
                    return {"violation": f"{self.name}, on some of the program's ranks in another order: {v}"}
        return {"counts": {"transitions": steps, "executions": runs, "subcommunicators": runs - len(self.modes)}, "outcome": outcome}

    def judge(self, case, out):
        if not out.ok():
            return self.judge_failure(case, out)
        if out.max_message >= 2**31:
            return f"a single message of {out.max_message} bytes was sent"
        return self.oracle(case, out.values())

    def judge_failure(self, case, out):
        tb = ""
        for r in out.results:
            if r is not None and r[0] == "exc":
                tb = " / " + short_tb(r[1])
                break
        return out.describe() + tb


def real_run(module, specname, n, cases, timeout=300):
    """Run cases (all on n ranks) under the real mpirun. Returns list of per-case lists of
    ("ok", value) / ("exc", text), shorter if the run did not complete; and a status"""
    with tempfile.TemporaryDirectory(dir="/dev/shm" if os.path.isdir("/dev/shm") else None) as d:
        inp, outp = os.path.join(d, "in.pkl"), os.path.join(d, "out.pkl")
        with open(inp, "wb") as f:
            pickle.dump((module, specname, cases), f)
        env = dict(os.environ)
        env["TMPDIR"] = d
        p = subprocess.Popen(["mpirun", "--oversubscribe", "-np", str(n), sys.executable, os.path.join(VERIF, "mc", "realmpi.py"), inp, outp],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        try:
            log, _ = p.communicate(timeout=timeout)
            status = p.returncode
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            log, _ = p.communicate()
            status = "timeout"
        results = []
        try:
            with open(outp, "rb") as f:
                while True:
                    try:
                        results.append(pickle.load(f))
                    except EOFError:
                        break
        except (OSError, pickle.UnpicklingError):
            pass
        return results, status, log.decode(errors="replace")[-6000:]


def broke(results):
    return bool(results) and any(x[0] != "ok" for x in results[-1])


def passes_alone(chk, module, spec, n, case):
    """A job which did not end may be the fault of the MPI library's own processes (more of them are
    running here than there are cores): only what fails again counts. Two repeats must both succeed"""
    for _ in range(2):
        results, status, log = real_run(module, spec.name, n, [case], 150)
        if len(results) != 1:
            return False
    chk.count("mpirun_repeats", 1)
    return True


def real_check(chk, module, spec, by_n, timeout=300, violation_on_hang=True):
    """by_n: {nranks: [cases]}. Judge real executions with the oracle"""
    for n, cases in sorted(by_n.items()):
        if not cases or chk.violations:     # after a violation there is no agreement to be shown
            continue
        t0 = time.time()
        results, status, log = real_run(module, spec.name, n, cases, timeout)
        while len(results) < len(cases) and not broke(results) and passes_alone(chk, module, spec, n, cases[len(results)]):
            more, status, log = real_run(module, spec.name, n, cases[len(results):], timeout)
            if not more:
                break
            results += more
        ok = 0
        for case, res in zip(cases, results):
            bad = [(r, x) for r, x in enumerate(res) if x[0] != "ok"]
            if bad:
                v = f"rank {bad[0][0]}: {bad[0][1][1]}"
            else:
                v = spec.oracle(case, [x[1] for x in res])
            if v:
                chk.violation(f"{spec.name} under real MPI: {v}", case, spec.name)
                break
            ok += 1
        else:
            if len(results) < len(cases):
                what = f"{spec.name} under real MPI on {n} ranks did not complete ({status}); last output: {log[-400:]}"
                if status in ("timeout",) or "Traceback" in log or "Signal" in log or "MPI_ERR" in log or "MPI_ABORT" in log:
                    chk.violation(what, cases[len(results)], spec.name)
                else:
                    chk.errors.append((what, log))
        chk.count("traces_validated_against_impl", ok)
        fam = chk.families.setdefault(f"real-mpirun:{spec.name}", {"cases": 0, "wall_s": 0.0})
        fam["cases"] += ok
        fam["wall_s"] = round(fam["wall_s"] + time.time() - t0, 2)
        print(f"[{chk.pid}] real mpirun -np {n} {spec.name}: {ok}/{len(cases)} traces agree, {time.time()-t0:.1f}s", flush=True)


def run_real(chk, module, spec, cases, family=None, nontrivial=None, per_job=150, cores=8, stop_after=3):
    """Every case is executed under the real mpirun (code which the simulation cannot carry, such as
    parallel HDF5), several jobs at a time"""
    from concurrent.futures import ThreadPoolExecutor
    import threading
    fam = family or spec.name
    if chk.args.family and not fam.startswith(chk.args.family):
        return
    if chk.late():
        return
    cases = list(cases)
    if chk.args.limit:
        cases = cases[:chk.args.limit]
    t0 = time.time()
    jobs = []
    for n, cs in sorted(group_by_ranks(spec, cases).items(), reverse=True):
        for i in range(0, len(cs), per_job):
            jobs.append((n, cs[i:i + per_job]))
    free = threading.Semaphore(cores)
    lock = threading.Lock()
    order = threading.Lock()
    state = {"ok": 0, "bad": 0, "n": 0}
    outcomes = set()

    def job(j):
        n, todo = j
        with order:
            for _ in range(min(n, cores)):
                free.acquire()
        try:
            while todo and state["bad"] < stop_after and not chk.late():
                results, status, log = real_run(module, spec.name, n, todo, 240)
                k = 0
                for case, res in zip(todo, results):
                    k += 1
                    bad = [(r, x) for r, x in enumerate(res) if x[0] != "ok"]
                    if bad:
                        v = f"rank {bad[0][0]}: {bad[0][1][1]}"
                    else:
                        vals = [x[1] for x in res]
                        v = spec.oracle(case, vals)
                        outcomes.add(hash(repr(vals)))
                    with lock:
                        state["n"] += 1
                        if v:
                            state["bad"] += 1
                            chk.violation(f"{spec.name}: {v}", case, fam)
                        else:
                            state["ok"] += 1
                todo = todo[k:]
                if todo and not broke(results) and state["bad"] < stop_after and passes_alone(chk, module, spec, n, todo[0]):
                    continue
                if todo and not broke(results):
                    what = f"{spec.name} on {n} ranks did not complete ({status}); last output: {log[-3000:]}"
                    with lock:
                        state["bad"] += 1
                        state["n"] += 1
                        if "Timeout (" in log or "Traceback" in log or "Signal" in log or "MPI_ERR" in log or "MPI_ABORT" in log:
                            chk.violation(what, todo[0], fam)
                        else:
                            chk.errors.append((what, log))
                    todo = todo[1:]
        finally:
            for _ in range(min(n, cores)):
                free.release()
    with ThreadPoolExecutor(cores) as ex:
        for f in [ex.submit(job, j) for j in jobs]:
            f.result()
    f = chk.families.setdefault(fam, {"cases": 0, "wall_s": 0.0})
    f["cases"] += state["n"]
    f["wall_s"] = round(time.time() - t0, 2)
    chk.count("evaluations", state["n"])
    chk.count("distinct_nontrivial", sum(1 for c in cases if nontrivial is None or nontrivial(c)))
    f["complete"] = state["n"] == len(cases)
    chk.outcomes |= outcomes
    for c in pick(cases, 2):
        chk.sample({"family": fam, "case": repr(c)[:600]})
    print(f"[{chk.pid}] {fam}: {state['n']}/{len(cases)} cases under mpirun, {state['bad']} violation(s), {time.time()-t0:.1f}s", flush=True)


def part_of_program(spec, every=Spec.SUB):
    """The spec, with every `every`-th case on a communicator which lacks one rank of the program and has its ranks in reverse order"""
    def chosen(case):
        return zlib.crc32(repr(case).encode()) % every == 0

    def args(case):
        n, a = spec.args(case)
        if not chosen(case):
            return n, [(False,) + tuple(x) for x in a]
        return n + 1, [(True,)] + [(True,) + tuple(a[n - r]) for r in range(1, n + 1)]

    def prog(rank, comm, mods, sub, *a):
        if not sub:
            return spec.prog(rank, comm, mods, *a)
        from mpi4py import MPI
        c = comm.Split(1 if rank else MPI.UNDEFINED, -rank)
        if not rank:
            return None
        try:
            return spec.prog(c.Get_rank(), c, mods, *a)
        finally:
            c.Free()

    def oracle(case, vals):
        if not chosen(case):
            return spec.oracle(case, vals)
        v = spec.oracle(case, vals[:0:-1])
        return v and f"on some of the program's ranks in another order: {v}"
    return Spec(spec.name, spec.mods, prog, args, oracle, spec.modes)


def pick(cases, k):
    """k cases spread evenly"""
    cases = list(cases)
    if len(cases) <= k:
        return cases
    return [cases[(i * len(cases)) // k] for i in range(k)]


def group_by_ranks(spec, cases):
    by = {}
    for c in cases:
        by.setdefault(spec.args(c)[0], []).append(c)
    return by


def run_spec(chk, module, spec, cases, nreal=150, family=None, nontrivial=None, real_ranks=(2, 3, 4)):
    fam = family or spec.name
    if chk.args.family and not fam.startswith(chk.args.family):
        return
    S.install()
    cases = list(cases)
    res = chk.run_cases(fam, cases, spec.sim_case, nontrivial=nontrivial)
    if res and res["violations"]:
        return
    uns = res["counts"].get("unsupported", 0) if res else 0
    if nreal and len(chk.violations) == 0:
        by = group_by_ranks(spec, cases)
        by = {n: pick(c, nreal if not uns else 3000) for n, c in by.items() if n in real_ranks or (uns and n <= 8)}
        real_check(chk, module, spec, by)
    if uns:
        chk.cov["simulation_unsupported"] = uns
        print(f"[{chk.pid}] {uns} case(s) use MPI calls which the simulation does not provide: decided under mpirun")
