"""C30: a function wrapped by mpi_errchk passes results through, and an error on any rank ends every rank"""
import io
import itertools
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
from mc.framework import Check, use_repo, REPO, VERIF
from mc import mpicheck as M, simmpi as S

use_repo()


class BadText(Exception):
    def __str__(self):
        raise RuntimeError("this exception has no text")


class Own(Exception):
    """an exception class of the program"""


def make(kind, rank):
    msg = f"msg<{rank}>"
    if kind == "KeyboardInterrupt":
        return KeyboardInterrupt()
    if kind == "SIGINT":
        return None
    if kind == "empty":
        return ValueError()
    if kind == "unicode":
        return ValueError(msg + " \u00e9\u4e2d \udc80")
    if kind == "bytes":
        return OSError(5, msg, b"\xff\xfe")
    if kind == "BadText":
        return BadText(msg)
    if kind == "Own":
        return Own(msg, 3)
    if kind == "percent":
        return ValueError(msg + " %s %d {x} {0}")
    if kind == "chained":
        e = ValueError(msg)
        e.__cause__ = KeyError("inner")
        return e
    if kind == "group":
        return ExceptionGroup(msg, [ValueError("a"), OSError("b")])
    return {"ValueError": ValueError, "StopIteration": StopIteration, "AssertionError": AssertionError, "MemoryError": MemoryError,
            "KeyError": KeyError, "ZeroDivisionError": ZeroDivisionError, "Warning": UserWarning, "ImportError": ImportError, "EOFError": EOFError,
            "RecursionError": RecursionError}[kind](msg)


KINDS = ["ValueError", "KeyboardInterrupt", "empty", "unicode", "BadText", "Own", "percent", "chained", "group", "StopIteration", "AssertionError",
         "MemoryError", "KeyError", "ZeroDivisionError", "Warning", "bytes", "ImportError", "EOFError", "RecursionError", "SIGINT"]
VALUES = [None, 0, 7, "text", (), [1, [2]], {"a": 1}, False, ValueError]
COMMS = ["none", "barrier", "bcast", "p2p", "ring", "allreduce", "probe"]


def talk(comm, how, rank, n):
    import numpy as np
    if how == "barrier":
        comm.Barrier()
    elif how == "bcast":
        a = np.zeros(3, dtype=np.int64)
        a[:] = rank == 0
        comm.Bcast(a, root=0)
    elif how == "p2p":
        if rank == 0:
            for i in range(1, n):
                comm.recv(source=i)
        else:
            comm.send(rank, dest=0)
    elif how == "ring":
        comm.sendrecv(rank, dest=(rank + 1) % n, source=(rank - 1) % n)
    elif how == "allreduce":
        comm.allreduce(rank)
    elif how == "probe":
        if rank == 0:
            for _ in range(n - 1):
                comm.recv()
        else:
            comm.send(1, dest=0)


def fail(kind, rank):
    e = make(kind, rank)
    if e is None:
        os.kill(os.getpid(), signal.SIGINT)
        time.sleep(60)
        return
    if kind == "RecursionError":
        def deep():
            deep()
        deep()
    raise e


def program(errchk, comm, rank, n, shape, how, actions):
    """The program under test; returns what the wrapped function returned"""
    act = actions[rank]

    def body():
        if act[0] == "before":
            fail(act[1], rank)
        talk(comm, how, rank, n)
        if act[0] == "after":
            fail(act[1], rank)
        return VALUES[act[1]] if act[0] == "ret" else None

    log = []
    if shape == "plain":
        @errchk
        def f():
            log.append(((), {}))
            return body()
        r = f()
        want = ((), {})
    elif shape == "args":
        def f(a, *b, c=5, **d):
            log.append(((a,) + b, dict(d, c=c)))
            return body()
        f = errchk(f)
        r = f(1, [2], "x", c=None, self=3, func=4)
        want = ((1, [2], "x"), {"c": None, "self": 3, "func": 4})
    elif shape == "method":
        class T:
            @errchk
            def f(self, a, b=2):
                log.append(((self.x, a), {"b": b}))
                return body()
        t = T()
        t.x = 9
        r = t.f(1, b=3)
        want = ((9, 1), {"b": 3})
    elif shape == "nested":
        @errchk
        def g(a):
            log.append(((a,), {}))
            return body()

        @errchk
        def f(a):
            return g(a)
        r = f(4)
        want = ((4,), {})
    else:    # a second call fails or returns
        @errchk
        def f(k):
            if k == 0:
                return "first"
            log.append(((k,), {}))
            return body()
        if f(0) != "first":
            return ("wrong", "result of the first call")
        r = f(1)
        want = ((1,), {})
    if log != [want]:
        return ("wrong", f"the function was called with {log}, expected one call with {want}")
    return ("value", r)


# case: (shape, how, actions per rank, output streams)
class Stream(io.TextIOWrapper):
    pass


class Broken(io.StringIO):
    def write(self, s):
        raise OSError(28, "No space left on device")

    def flush(self):
        raise OSError(28, "No space left on device")


def streams(kind):
    if kind == "broken-out":
        return Broken(), io.StringIO()
    if kind == "broken-err":
        return io.StringIO(), Broken()
    if kind == "broken":
        return Broken(), Broken()
    if kind == "ascii":
        return io.TextIOWrapper(io.BytesIO(), encoding="ascii"), io.TextIOWrapper(io.BytesIO(), encoding="ascii", errors="backslashreplace")
    return io.StringIO(), io.StringIO()


def text(s):
    if isinstance(s, io.TextIOWrapper):
        s.flush()
        return s.buffer.getvalue().decode()
    return s.getvalue()


def judge(case, failure, code, values, output):
    shape, how, actions, out = case
    bad = [r for r, a in enumerate(actions) if a[0] in ("before", "after")]
    if not bad:
        if failure is not None:
            return f"no rank fails, but: {failure}"
        for r, v in enumerate(values):
            if v != ("value", VALUES[actions[r][1]]):
                return f"rank {r}: {v}, expected the value {VALUES[actions[r][1]]!r}"
        if "EXCEPTION" in output or "Traceback" in output:
            return f"an error was reported though there is none: {output[-300:]}"
        return None
    if code is None:
        return f"rank(s) {bad} raised an exception, but the job was not aborted: {failure or values}"
    if code == 0:
        return "the job was aborted with exit code 0"
    if out == "normal":
        ok = any(actions[r][1] == "BadText" for r in bad)    # has no text to report
        for r in bad:
            k = actions[r][1]
            name = {"SIGINT": "KeyboardInterrupt", "empty": "ValueError", "unicode": "ValueError", "percent": "ValueError", "chained": "ValueError",
                    "group": "ExceptionGroup", "Warning": "UserWarning", "bytes": "OSError"}.get(k, k)
            has = name in output and ("Traceback" in output) and "fail" in output
            if k not in ("KeyboardInterrupt", "SIGINT", "empty", "BadText", "RecursionError"):
                has = has and f"msg<{r}>" in output
            if has and re.search(r"rank\s*%d\b" % r, output):
                ok = True
        if not ok:
            return f"the error of rank(s) {bad} was not reported with its traceback and rank: {output[-600:]!r}"
    return None


FULL = [S.Mode(b, s, d) for b, s, d in ((True, False, False), (True, True, True), (False, False, False), (False, True, True))]


def sim_case(item):
    case, bound, budget = item
    shape, how, actions, out = case
    n = len(actions)

    def fn(rank, comm):
        m = S.rank_modules(rank, ("virgo.mpi.errchk",))["virgo.mpi.errchk"]
        return program(m.mpi_errchk, comm, rank, n, shape, how, actions)
    counts = {"schedules": 0, "transitions": 0}
    keep = sys.stdout, sys.stderr
    for mode in FULL:
        bad = []
        cur = {}

        def args():
            # a new pair of output streams for every execution
            cur["io"] = streams(out)
            sys.stdout, sys.stderr = cur["io"]
            return [()] * n

        def visit(o, choices):
            if o.failure is not None and o.failure[0] == "unsupported":
                bad.append(None)
                return True
            code = None
            if o.failure is not None and o.failure[0] == "abort":
                code = int(re.search(r"\((-?\d+)\)", o.failure[1]).group(1))
            vals = [r[1] if r is not None and r[0] == "ok" else r for r in o.results]
            output = "" if "broken" in out else text(cur["io"][0]) + text(cur["io"][1])
            v = judge(case, o.failure if not o.ok() else None, code, vals, output)
            if not v and code is not None and o.failure[0] != "abort":
                v = str(o.failure)
            if v:
                bad.append(f"{mode!r}, schedule {list(choices)}: {v}")
                return True
            return False
        try:
            runs, points, capped = S.explore(n, fn, args, mode, bound, visit, limit=budget)
        finally:
            sys.stdout, sys.stderr = keep
        counts["schedules"] += runs
        counts["transitions"] += points
        counts["capped"] = counts.get("capped", 0) + int(capped)
        if bad:
            if bad[0] is None:
                return {"counts": {"unsupported": 1}}
            return {"violation": bad[0], "counts": counts}
    return {"counts": counts}


def sim_cases(t):
    k = 0
    shapes = ["plain", "args", "method", "nested", "twice"]
    for n in (1, 2, 3, 4) if t else (1, 2, 3):
        # every set of failing ranks, before or after the communication, for every kind of communication
        for how in COMMS:
            for acts in itertools.product(("ret", "before", "after"), repeat=n):
                for rep in range(3 if t else 1):
                    a = tuple((x, k % len(VALUES)) if x == "ret" else (x, KINDS[(k + i) % 19]) for i, x in enumerate(acts))
                    yield (shapes[k % 5], how, a, "normal")
                    k += 1
    for n in (1, 2):
        for shape in shapes:
            for v in range(len(VALUES)):
                yield (shape, COMMS[k % len(COMMS)], (("ret", v),) * n, "normal")
                k += 1
            for kind in KINDS[:19]:
                for out in ("normal", "ascii", "broken", "broken-out", "broken-err"):
                    for when in ("before", "after"):
                        a = [("ret", 1)] * n
                        a[k % n] = (when, kind)
                        yield (shape, COMMS[(k // 2) % len(COMMS)], tuple(a), out)
                        k += 1


# ---- real processes ----
def real_case(case):
    """What goes wrong must do so again: mpirun itself may hang or lose processes"""
    for _ in range(3):
        r = real_run(case)
        if "violation" not in r:
            break
    return r


def real_run(case):
    shape, how, actions, out = case
    n = len(actions)
    with tempfile.TemporaryDirectory(dir="/dev/shm" if os.path.isdir("/dev/shm") else None) as d:
        env = dict(os.environ, TMPDIR=d)
        if out == "ascii":
            env["PYTHONIOENCODING"] = "ascii:strict"
        # a watchdog in the processes, as mpirun may not pass on the end of the time
        code = ("import faulthandler, sys\nfaulthandler.dump_traceback_later(40, exit=True)\n"
                f"sys.path.insert(0, {VERIF!r})\nsys.path.insert(0, {REPO + '/python'!r})\n"
                "from mpi4py import MPI\nfrom virgo.mpi.errchk import mpi_errchk\nfrom checks import c30\n"
                f"case = {case!r}\ncomm = MPI.COMM_WORLD\nr = comm.Get_rank()\n"
                "v = c30.program(mpi_errchk, comm, r, comm.Get_size(), case[0], case[1], case[2])\n"
                f"open({d!r} + '/r%d' % r, 'w').write(repr(v))\n")
        p = subprocess.Popen(["mpirun", "--oversubscribe", "-np", str(n), sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             env=env, start_new_session=True)
        try:
            log, _ = p.communicate(timeout=90)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            log, _ = p.communicate()
            log += b"\nTimeout (90 s)"
        log = log.decode(errors="replace")
        if "Timeout (" in log:
            return {"violation": f"under mpirun the job did not end: {log[:600]!r}"}
        values = []
        for r in range(n):
            try:
                values.append(eval(open(f"{d}/r{r}").read(), {"ValueError": ValueError}))
            except Exception as e:
                values.append(f"no result ({e})")
    if any(a[0] != "ret" for a in actions):
        # what is printed is judged in the simulation: mpirun may lose the end of the output
        v = judge(case[:3] + ("real",), "it ran on", p.returncode or None, values, log)
    else:
        v = judge(case, None if p.returncode == 0 else f"exit code {p.returncode}: {log[:500]}", None, values, log)
    if v:
        return {"violation": "under mpirun: " + v}
    return {"counts": {"traces_validated_against_impl": 1}}


def real_cases(t):
    k = 0
    for kind in KINDS:
        yield ("plain", "none" if kind == "SIGINT" else COMMS[1 + k % 6], (("ret", 1), ("before", kind)), "normal")
        k += 1
    for how in COMMS:
        yield ("args", how, (("ret", 1), ("ret", 2), ("ret", 3)), "normal")
        for pos in range(3) if t else (k % 3,):
            a = [("ret", 1)] * 3
            a[pos] = ("before", "ValueError")
            yield ("method", how, tuple(a), "normal")
            a[pos] = ("after", "KeyboardInterrupt")
            yield ("nested", how, tuple(a), "normal")
        yield ("twice", how, (("before", "Own"),) * 3, "normal")
        k += 1
    yield ("plain", "barrier", (("ret", 1), ("before", "unicode")), "ascii")
    yield ("plain", "barrier", (("before", "unicode"), ("ret", 1)), "ascii")


def main():
    chk = Check("C30", "model_checking")
    S.install()
    if chk.replay_requested({"schedules": sim_case, "mpirun": real_case}):
        return
    t = chk.thorough
    cases = [(c, 3 if t else 2, 20000 if t else 3000) for c in sim_cases(t)]
    nt = lambda c: any(a[0] != "ret" for a in c[2])
    res = chk.run_cases("schedules", cases, sim_case, nontrivial=lambda c: nt(c[0]))
    if res and res["counts"].get("unsupported"):
        chk.errors.append(("calls of MPI which the simulation does not provide", ""))
    if not chk.violations:
        chk.run_cases("mpirun", list(real_cases(t)), real_case, nproc=4, nontrivial=nt, limit=400)
    chk.assumptions = ["SystemExit and GeneratorExit are not errors; a process which is killed outright cannot act"]
    chk.finish(rule="every set of failing ranks of up to 3 (thorough 4), failing before or after 7 kinds of communication, under every schedule with up to 2 (thorough 3) preemptions in four modes of the library; "
                    "19 kinds of exception x 5 kinds of wrapped function x 5 states of the output streams; all kinds of exception and communication, and signals, under mpirun; non-trivial: some rank fails",
               extra={"states": chk.cov.get("schedules", 0)})


if __name__ == "__main__":
    main()
