"""
Common machinery of the checks: command line, parallel exhaustive enumeration
with a watchdog, known findings, violation artefacts and evidence files.
"""
import argparse
import base64
import json
import multiprocessing as mp
import errno
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_NPROC", "8"))
CASE_LIMIT = float(os.environ.get("VERIF_CASE_LIMIT", "120"))


def use_repo():
    """Make sure the virgo package of /repo's working tree is the one imported"""
    p = os.path.join(REPO, "python")
    if p not in sys.path:
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True


class Violation(Exception):
    """Raised (or returned) by case functions"""


class Scratch:
    """A scratch directory which is removed at the end"""
    def __init__(self, name):
        base = os.environ.get("VERIF_SCRATCH")
        if base is None:
            base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.path = tempfile.mkdtemp(prefix=f"verif-{name}-", dir=base)
        self.pid = os.getpid()

    def close(self):
        if os.getpid() == self.pid:
            shutil.rmtree(self.path, ignore_errors=True)


def environmental(e):
    """Errors which are not due to what the code did"""
    if isinstance(e, OSError):
        return e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.ENOMEM, errno.EDQUOT, errno.EIO, errno.EROFS, errno.ENOEXEC)
    return isinstance(e, (MemoryError, ImportError, NotImplementedError, RecursionError))


def from_repo(tb):
    """True if an exception passed through the code under test"""
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO + "/") or "/python/virgo/" in f.filename:
            return True
    return False


def short_tb(e):
    fr = traceback.extract_tb(e.__traceback__)
    where = ""
    for f in fr:
        if f.filename.startswith(REPO + "/") or "/python/virgo/" in f.filename:
            where = f" at {os.path.basename(f.filename)}:{f.lineno} in {f.name}"
    return f"{type(e).__name__}: {e}{where}"


class Check:
    def __init__(self, pid, level, describe=""):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
        ap.add_argument("--replay", default=None)
        ap.add_argument("--limit", type=int, default=None, help="only the first cases (development)")
        ap.add_argument("--family", default=None, help="only this family (development)")
        self.args = ap.parse_args()
        self.pid = pid
        self.level = level
        self.tier = self.args.tier
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}
        self.families = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.known_entries = load_known(pid)
        self.errors = []
        self.scratch = Scratch(pid)
        self.outcomes = set()

    # ---- reporting ----
    def violation(self, what, case=None, family=None):
        for k in self.known_entries:
            if k["key"] in what_key(what, case, family):
                if k not in self.known:
                    self.known.append(k)
                return
        self.violations.append((what, case, family))

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s if isinstance(s, (str, dict, list)) else repr(s))

    def late(self):
        """Something was found, and looking for more has taken long enough"""
        return bool(self.violations) and time.time() - self.t0 > 240

    # ---- exhaustive enumeration ----
    def run_cases(self, family, cases, func, stop_after=3, nproc=None, limit=None, init=None, nontrivial=None,
                  sample_every=None):
        """
        func(case) -> None | str (a violation) | dict(violation=, counts=, outcome=)
        cases is a sequence. Runs all of them, in forked workers.
        """
        if self.args.family and not family.startswith(self.args.family):
            return []
        if self.late():
            return []
        cases = list(cases)
        total = len(cases)
        if self.args.limit:
            cases = cases[:self.args.limit]
        nproc = min(nproc or NPROC, max(1, len(cases)))
        t0 = time.time()
        res = run_pool(cases, func, nproc, limit or CASE_LIMIT, init, stop_after, max(self.t0 + 300, time.time() + 60))
        fam = self.families.setdefault(family, {"cases": 0, "wall_s": 0.0})
        fam["cases"] += res["done"]
        fam["wall_s"] = round(fam["wall_s"] + time.time() - t0, 2)
        self.count("evaluations", res["done"])
        nt = res["counts"].pop("nontrivial", None)
        if nt is None:
            nt = sum(1 for c in cases[:res["done"]] if nontrivial is None or nontrivial(c))
        self.count("distinct_nontrivial", nt)
        for k, v in res["counts"].items():
            self.count(k, v)
            fam[k] = fam.get(k, 0) + v
        self.outcomes |= res["outcomes"]
        if cases:
            k = max(1, len(cases) // 2)
            self.sample({"family": family, "case": brief(cases[k - 1])})
        for idx, what in res["violations"]:
            self.violation(what, cases[idx], family)
        for idx, err in res["errors"]:
            self.errors.append((f"{family} case {brief(cases[idx])}", err))
        fam["complete"] = (res["done"] == total)
        if res["done"] != total and not res["violations"] and not res["errors"]:
            self.cov["capped"] = True
        print(f"[{self.pid}] {family}: {res['done']}/{total} cases, {len(res['violations'])} violation(s), {time.time()-t0:.1f}s", flush=True)
        return res

    # ---- end ----
    def finish(self, rule="", extra=None, exhaustive=True):
        self.scratch.close()
        cov = self.cov
        cov["rule"] = rule
        cov["families"] = self.families
        if extra:
            cov.update(extra)
        if self.outcomes:
            cov["distinct_outcomes"] = len(self.outcomes)
        cov["exhaustive"] = bool(exhaustive and not cov.get("capped") and not self.violations
                                 and all(f.get("complete", True) for f in self.families.values()))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['text']}")
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for i, (what, case, family) in enumerate(self.violations[:3]):
                path = os.path.join(VERIF, "replays", f"{self.pid}-{i}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "family": family, "what": what, "case": brief(case, 100000),
                               "pickle": base64.b64encode(pickle.dumps(case)).decode(),
                               "replay": f"cd /verif && ./run {self.pid} --replay {path}"}, f, indent=1)
                print(f"VIOLATION property={self.pid} replay={path}")
                print("   " + what[:2000])
            sys.stdout.flush()
            sys.exit(1)
        if self.errors:
            for w, e in self.errors[:3]:
                print("ERROR in check:", w, "\n", e, file=sys.stderr)
            sys.exit(3)
        print(f"[{self.pid}] held on everything explored: {cov['evaluations']} evaluations, {time.time()-self.t0:.1f}s")
        sys.exit(0)

    def replay_requested(self, funcs):
        """funcs: {family prefix: case function}"""
        if not self.args.replay:
            return False
        r = json.load(open(self.args.replay))
        case = pickle.loads(base64.b64decode(r["pickle"]))
        for fam, fn in funcs.items():
            if (r["family"] or "").startswith(fam):
                try:
                    out = fn(case)
                except BaseException as e:
                    traceback.print_exc()
                    out = short_tb(e)
                print("case:", brief(case, 100000))
                print("result:", out)
                self.scratch.close()
                bad = out if isinstance(out, str) else (out or {}).get("violation")
                if bad:
                    print(f"VIOLATION property={self.pid} replay={self.args.replay}")
                sys.exit(1 if bad else 0)
        sys.exit("no such family")


def brief(x, n=600):
    s = repr(x)
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."


def what_key(what, case, family):
    return f"{family} | {what} | {brief(case, 5000)}"


def load_known(pid):
    """known_findings.txt: lines `KNOWN property=<id> key=<substring> :: text` (and `fixed: ...`)"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"KNOWN property={pid} key="):
                key, text = line[len(f"KNOWN property={pid} key="):].split(" :: ", 1)
                out.append({"key": key, "text": text})
    return out


def _worker(w, nproc, cases, func, init, conn, beat, stop, stop_after):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        # quiet: the code under test prints
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get("VERIF_VERBOSE"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        if init is not None:
            init()
        done = 0
        counts = {}
        outcomes = set()
        nviol = 0
        for i in range(w, len(cases), nproc):
            if stop.value:
                break
            beat[2 * w] = i
            beat[2 * w + 1] = time.time()
            try:
                out = func(cases[i])
            except Violation as e:
                out = str(e)
            except Exception as e:
                if from_repo(e.__traceback__):
                    out = "unexpected exception " + short_tb(e)
                elif not environmental(e):
                    # Cases are fixed, so it is what the code returned that can't be interpreted
                    out = "result can't be interpreted: " + short_tb(e)
                else:
                    conn.send(("error", i, traceback.format_exc()))
                    stop.value = 1
                    break
            done += 1
            if isinstance(out, dict):
                for k, v in out.get("counts", {}).items():
                    counts[k] = counts.get(k, 0) + v
                if "outcome" in out and len(outcomes) < 100000:
                    outcomes.add(hash(out["outcome"]))
                out = out.get("violation")
            if out:
                conn.send(("violation", i, out))
                nviol += 1
                if nviol >= stop_after:
                    stop.value = 1
                    break
        beat[2 * w] = -1
        conn.send(("done", done, counts, outcomes))
        conn.close()
    except BaseException:
        try:
            conn.send(("error", max(0, int(beat[2 * w])), traceback.format_exc()))
        except Exception:
            pass
    finally:
        os._exit(0)


def run_pool(cases, func, nproc, limit, init, stop_after, enough):
    """enough: the time after which nothing more is tried once there is a violation"""
    ctx = mp.get_context("fork")
    stop = ctx.Value("i", 0, lock=False)
    beat = ctx.Array("d", [-1.0, 0.0] * nproc, lock=False)
    procs, conns = [], []
    for w in range(nproc):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(w, nproc, cases, func, init, b, beat, stop, stop_after), daemon=False)
        p.start()
        b.close()
        procs.append(p)
        conns.append(a)
    res = {"done": 0, "counts": {}, "violations": [], "errors": [], "outcomes": set()}
    live = dict(enumerate(conns))
    while live:
        ready = mp.connection.wait(list(live.values()), timeout=1.0)
        if res["violations"] and time.time() > enough:
            stop.value = 1
            if time.time() > enough + 30 and not ready:
                for w in list(live):
                    os.kill(procs[w].pid, signal.SIGKILL)
                    del live[w]
                break
        for w in list(live):
            c = live[w]
            if c in ready:
                try:
                    msg = c.recv()
                except EOFError:
                    procs[w].join()
                    idx = int(beat[2 * w])
                    if idx >= 0:
                        res["violations"].append((idx, f"the process running this case died (exit code {procs[w].exitcode})"))
                        stop.value = 1
                    del live[w]
                    continue
                if msg[0] == "violation":
                    res["violations"].append((msg[1], msg[2]))
                elif msg[0] == "error":
                    res["errors"].append((msg[1], msg[2]))
                    del live[w]
                elif msg[0] == "done":
                    res["done"] += msg[1]
                    for k, v in msg[2].items():
                        res["counts"][k] = res["counts"].get(k, 0) + v
                    res["outcomes"] |= msg[3]
                    del live[w]
            elif beat[2 * w] >= 0 and time.time() - beat[2 * w + 1] > limit:
                idx = int(beat[2 * w])
                os.kill(procs[w].pid, signal.SIGKILL)
                res["violations"].append((idx, f"no end after {limit:.0f} s (such a case normally takes milliseconds)"))
                stop.value = 1
                del live[w]
    for p in procs:
        p.join()
    res["violations"].sort(key=lambda v: v[0])
    return res
