"""C29: hash_dirs_mpi: every file hashed once, whatever the tree, the number of tasks and the schedule; resuming"""
import contextlib
import hashlib
import io
import itertools
import os
import re
import shutil
import sqlite3
import subprocess
import sys
import types
from mc.framework import Check, use_repo, Violation, REPO
from mc import simmpi as S

use_repo()
CHK = None
SCRIPT = "consistency_check/hash/hash_dirs_mpi.py"
CODE = None
LOG = re.compile(r"^Task\s+(\d+) : (\S+) (.*?)( \(Cached\))?$")
SKIP = re.compile(r"^Task\s+(\d+) : skipping output file (.*)$")
MiB = 1 << 20


def fail(x):
    raise Violation(x)


# ---- a run ----
class Crash:
    """Ends the run at the given database operation"""
    at = None
    n = 0

    @classmethod
    def op(cls):
        cls.n += 1
        if cls.at is not None and cls.n > cls.at:
            w = S._tls.world
            w.fail("crash", "crash at a database operation")
            raise S.Killed()


class Con(sqlite3.Connection):
    def execute(self, *a):
        Crash.op()
        return super().execute(*a)

    def executemany(self, *a):
        Crash.op()
        return super().executemany(*a)

    def commit(self):
        Crash.op()
        r = super().commit()
        Crash.op()
        return r

    def __exit__(self, *a):
        if a[0] is None:
            Crash.op()
        return super().__exit__(*a)


ATTRS = {}


class Xattr:
    def __init__(self, path):
        self.path = path

    def __setitem__(self, k, v):
        if (self.path, k) in ATTRS:
            ATTRS[self.path, k] = "set twice"
        else:
            ATTRS[self.path, k] = v


def install():
    S.install()
    S.SPIN_LIMIT = 5
    fake = types.ModuleType("sqlite3")
    fake.__dict__.update({k: v for k, v in sqlite3.__dict__.items() if not k.startswith("__")})

    def connect(path, *a, **k):
        k["factory"] = Con
        return sqlite3.connect(path, *a, **k)
    fake.connect = connect
    sys.modules["sqlite3"] = fake
    x = types.ModuleType("xattr")
    x.xattr = Xattr
    sys.modules["xattr"] = x


def program(rank, comm):
    g = {"__name__": "__main__", "__file__": "hash_dirs_mpi.py"}
    try:
        exec(CODE, g)
    finally:
        g["dirlist"] = None


class SharedFile:
    """File being written: it is truncated when opened and written when closed, and other tasks may run in between"""
    def __init__(self, path, mode, *a, **k):
        self.w = S._tls.world
        self.f = open(path, mode, *a, **k)
        self.buf = []
        self.w.point()

    def write(self, x):
        self.buf.append(x)

    def writelines(self, xs):
        self.buf.extend(xs)

    def close(self):
        if not self.f.closed:
            self.w.point()
            for x in self.buf:
                self.f.write(x)
            self.f.close()

    __enter__ = lambda self: self

    def __exit__(self, *a):
        self.close()

    def __getattr__(self, name):
        return getattr(self.f, name)


def program_shared(rank, comm):
    import builtins

    def shared_open(path, mode="r", *a, **k):
        return SharedFile(path, mode, *a, **k) if "w" in mode else open(path, mode, *a, **k)
    g = {"__name__": "__main__", "__file__": "hash_dirs_mpi.py", "__builtins__": dict(builtins.__dict__, open=shared_open)}
    try:
        exec(CODE, g)
    finally:
        g["dirlist"] = None


@contextlib.contextmanager
def captured(args):
    global CODE
    if CODE is None:
        path = os.path.join(REPO, SCRIPT)
        with open(path) as f:
            CODE = compile(f.read(), path, "exec")
    out, err = io.StringIO(), io.StringIO()
    argv = sys.argv
    sys.argv = ["hash_dirs_mpi.py"] + args
    import warnings
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield out, err
    finally:
        sys.argv = argv


# ---- trees: ((name, value), ...) with value: int (size of a file), str (contents), None (dangling link), tuple (directory), ("->", target) ----
def content(v, salt=""):
    if isinstance(v, int):
        b = (f"{v}{salt}-".encode() * (v // (len(f"{v}{salt}-")) + 1))[:v]
        return b + salt.encode()
    return (v + salt).encode()


def is_dir(v):
    return isinstance(v, tuple) and not (len(v) == 2 and v[0] == "->")


def make(base, tree, salt=""):
    os.makedirs(base, exist_ok=True)
    for name, v in tree:
        p = os.path.join(base, name)
        if v is None:
            if not os.path.islink(p):
                os.symlink("nothing-here", p)
        elif is_dir(v):
            make(p, v, salt)
        elif isinstance(v, tuple):
            if not os.path.islink(p):
                os.symlink(v[1], p)
        else:
            with open(p, "wb") as f:
                f.write(content(v, salt))


def lookup(tree, path):
    for part in path.split("/"):
        tree = dict(tree)[part]
    return tree


def expand(tree, root=None, prefix=""):
    """every (path, contents) below a directory, through links; and the directories"""
    root = tree if root is None else root
    files, dirs = {}, [prefix.rstrip("/") or "."]
    for name, v in tree:
        if isinstance(v, tuple) and not is_dir(v):
            # links are relative to the top: "../" for each level
            v = lookup(root, re.sub(r"^(\.\./)*", "", v[1]))
        if is_dir(v):
            f, d = expand(v, root, prefix + name + "/")
            files.update(f)
            dirs += d
        else:
            files[prefix + name] = v
    return files, dirs


def rx(pattern):
    """Shell pattern as a regular expression"""
    out, i = "", 0
    while i < len(pattern):
        c = pattern[i]
        i += 1
        if c == "*":
            out += ".*"
        elif c == "?":
            out += "."
        elif c == "[" and "]" in pattern[i + 1:]:
            j = pattern.index("]", i + 1)
            s = pattern[i:j]
            out += "[" + ("^" + s[1:] if s[0] == "!" else s) + "]"
            i = j + 1
        else:
            out += re.escape(c)
    return re.compile(out + r"\Z", re.S)


class Job:
    """A tree, options, and what should come out"""
    def __init__(self, base, tree, opts, salt=""):
        self.top = base
        self.dir = os.path.join(base, "data dir")
        self.tree, self.opts = tree, dict(opts)
        o = self.opts
        self.type = o.get("type", "md5")
        self.given = {0: self.dir, 1: self.dir + "/", 2: os.path.relpath(self.dir), 3: os.path.join(self.dir, "..", "data dir")}[o.get("style", 0)]
        self.outfile = o.get("outfile") and os.path.join(self.dir, o["outfile"])
        self.dirfile = o.get("dirfile")
        self.db = o.get("db") and os.path.join(base, "hashes.db")
        files, self.dirs = expand(tree)
        self.files = {}
        self.skipped = set()
        for p, v in files.items():
            if o.get("outfile") and os.path.normpath(o["outfile"]) == p or self.dirfile and os.path.basename(p) == self.dirfile:
                self.skipped.add(p)
                continue
            if "include" in o and not any(rx(os.path.normpath(x)).match(p) for x in o["include"].split(",")):
                continue
            if "exclude" in o and any(rx(os.path.normpath(x)).match(p) for x in o["exclude"].split(",")):
                continue
            self.files[p] = v
        self.salt(salt)

    def salt(self, salt):
        self.cursalt = salt
        self.hash = {p: "UNREADABLE" if v is None else hashlib.new(self.type, content(v, salt)).hexdigest() for p, v in self.files.items()}

    def args(self, resume=False):
        a = [self.given]
        if self.outfile:
            a += ["--outfile", self.outfile]
        if self.dirfile:
            a += ["--dirfile", self.dirfile]
        if self.db:
            a += ["--database", self.db]
        if "type" in self.opts:
            a += ["--type", self.type]
        for k in ("include", "exclude"):
            if k in self.opts:
                a += [f"--{k}={self.opts[k]}"]
        if self.opts.get("attrs"):
            a.append("--attrs")
        if resume:
            a.append("--resume")
        return a

    def reset(self, keep_db=False):
        if self.outfile and not any(self.opts.get("outfile") == p for p in self.skipped) and os.path.exists(self.outfile):
            os.unlink(self.outfile)
        if self.dirfile:
            for d in self.dirs:
                p = os.path.join(self.dir, d, self.dirfile)
                if os.path.exists(p):
                    os.unlink(p)
            make(self.dir, self.tree, self.cursalt)
        if self.db and not keep_db:
            for x in ("", "-journal", "-wal"):
                if os.path.exists(self.db + x):
                    os.unlink(self.db + x)
            if self.opts["db"] == 2:
                # the database of an earlier run
                con = sqlite3.connect(self.db)
                con.execute("create table hashes (basedir text, path text, hash_type text, hash text)")
                for p in list(self.files) + ["gone"]:
                    con.execute("insert into hashes values(?,?,?,?)", (self.given, p, self.type, "0" * 32))
                con.commit()
                con.close()
        ATTRS.clear()
        Crash.n = 0

    def rows(self):
        if not os.path.exists(self.db):
            return []
        con = sqlite3.connect(self.db)
        try:
            return list(con.execute("select basedir, path, hash_type, hash from hashes"))
        except sqlite3.OperationalError as e:
            if "no such table" in str(e):
                return []
            raise
        finally:
            con.close()

    def judge(self, log, nranks, cached=()):
        """A run which has ended well"""
        seen = {}
        skipped = set()
        for line in log.splitlines():
            m = SKIP.match(line)
            if m:
                skipped.add(m.group(2))
                continue
            m = LOG.match(line)
            if not m:
                fail(f"unexpected line of output: {line!r}")
            r, h, p = int(m.group(1)), m.group(2), m.group(3)
            if not 0 <= r < nranks:
                fail(f"output names task {r} of {nranks}")
            if p in seen:
                fail(f"{p!r} was processed twice, by tasks {seen[p][0]} and {r}")
            seen[p] = (r, h, bool(m.group(4)))
            if p in self.hash and h != self.hash[p]:
                fail(f"hash of {p!r} is shown as {h}, should be {self.hash[p]}")
            if p in self.files and bool(m.group(4)) != (p in cached):
                fail(f"hash of {p!r} was {'' if m.group(4) else 'not '}taken from the database, which {'has' if p in cached else 'does not have'} it")
        if set(seen) != set(self.files):
            fail(f"files not processed: {sorted(set(self.files) - set(seen))}, processed but should not be: {sorted(set(seen) - set(self.files))}")
        want = [f"{h} {p}" for p, h in sorted(self.hash.items())]
        if self.outfile:
            got = read_list(self.outfile, self.type, os.path.abspath(self.given))
            if got != want:
                fail(f"output file has {got}, should have {want}")
        if self.dirfile:
            per = {d: {} for d in self.dirs}
            for p, h in self.hash.items():
                per[os.path.dirname(p) or "."][os.path.basename(p)] = h
            real = {}
            for d in self.dirs:
                real.setdefault(os.path.realpath(os.path.join(self.dir, d)), []).append(d)
            for d in self.dirs:
                got = read_list(os.path.join(self.dir, d, self.dirfile), self.type, os.path.abspath(self.given))
                # a directory reached in several ways: any of them may have been last
                ok = [[f"{h} {p}" for p, h in sorted(per[x].items())] for x in real[os.path.realpath(os.path.join(self.dir, d))]]
                if got not in ok:
                    fail(f"hashes of directory {d!r} are {got}, should be {ok[0]}")
            found = {os.path.relpath(os.path.join(a, self.dirfile), self.dir) for a, b, c in os.walk(self.top, followlinks=True) if self.dirfile in c}
            want_at = {os.path.normpath(os.path.join(d, self.dirfile)) for d in self.dirs}
            if found != want_at:
                fail(f"files with the hashes of directories at {sorted(found)}, should be {sorted(want_at)}")
        if self.db:
            got = sorted(self.rows())
            want = sorted((self.given, p, self.type, h) for p, h in self.hash.items() if h != "UNREADABLE")
            if got != want:
                fail(f"database has {got}, should have {want}")
        if self.opts.get("attrs"):
            got = {(os.path.relpath(os.path.realpath(p), os.path.realpath(self.dir)), k): v for (p, k), v in ATTRS.items()}
            want = {(os.path.relpath(os.path.realpath(os.path.join(self.dir, p)), os.path.realpath(self.dir)), "user.checksum." + self.type): h for p, h in self.hash.items() if h != "UNREADABLE"}
            if got != want:
                fail(f"attributes set: {got}, should be {want}")


def read_list(path, htype, base):
    if not os.path.exists(path):
        fail(f"{os.path.basename(path)!r} has not been written")
    with open(path, newline="\n") as f:
        lines = f.read().split("\n")
    if lines[-1] != "":
        fail(f"{path}: the last line is not complete")
    head = [x for x in lines if x.startswith("#")]
    if f"# Hash type: {htype}" not in head or f"# Base directory: {base}" not in head:
        fail(f"{path}: header is {head}")
    return [x for x in lines[:-1] if not x.startswith("#")]


def newtop():
    d = os.path.join(CHK.scratch.path, f"h{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


def describe(tree, opts, n):
    return f"{n} task(s), {tree if len(str(tree)) < 300 else str(tree)[:300]}, {dict(opts)}"


# ---- complete runs, all schedules ----
def run_case(case):
    tree, opts, n, mode, bound, limit = case
    install()
    job = Job(newtop(), tree, opts)
    make(job.dir, tree)
    if "other" in job.opts:
        make(os.path.join(job.top, "elsewhere"), (("f", "x"),))
    bad = []
    with captured(job.args()) as (out, err):
        def args():
            job.reset()
            out.seek(0)
            out.truncate(0)
            err.seek(0)
            err.truncate(0)
            return [()] * n

        def visit(o, choices):
            try:
                if not o.ok():
                    fail(f"{o.describe()} {err.getvalue()[:500]}")
                job.judge(out.getvalue(), n)
            except Violation as e:
                bad.append(f"{describe(tree, opts, n)}, mode {MODES[mode]}, schedule {choices}: {e}")
                return True
        for pol in POLICIES[1:] if n > 1 else []:
            if not bad:
                args()
                visit(S.execute(n, program, [()] * n, policy=pol(), mode=MODES[mode]), pol.__name__)
        if bad:
            return bad[0]
        runs, points, capped = S.explore(n, program, args, MODES[mode], bound, visit, limit)
    shutil.rmtree(job.top)
    return {"violation": bad[0] if bad else None, "counts": {"schedules": runs, "transitions": points, "capped_cases": int(capped), "nontrivial": int(len(job.files) > 0)}}


def shared_case(case):
    """Files written by several tasks at the same time"""
    tree, opts, n, bound, limit = case
    install()
    job = Job(newtop(), tree, opts)
    make(job.dir, tree)
    first = {}
    with captured(job.args()) as (out, err):
        def args():
            job.reset()
            for x in (out, err):
                x.seek(0)
                x.truncate(0)
            return [()] * n

        def visit(o, choices):
            try:
                if not o.ok():
                    fail(f"{o.describe()} {err.getvalue()[:500]}")
                job.judge(out.getvalue(), n)
            except Violation as e:
                kind = "directory file" if str(e).startswith("hashes of directory") or "last line" in str(e) else "other"
                first.setdefault(kind, f"{describe(tree, opts, n)}, {kind}, schedule {choices}: {e}")
        runs, points, capped = S.explore(n, program_shared, args, MODES[0], bound, visit, limit)
    shutil.rmtree(job.top)
    return {"violation": first.get("other") or first.get("directory file"), "counts": {"schedules": runs, "transitions": points, "nontrivial": 1}}


# ---- interrupted runs ----
MODES = [S.Mode(eager=e, strict=s, late=l) for e, s, l in ((True, False, False), (False, False, False), (True, True, True), (False, True, True))]
POLICIES = [S.Policy, S.RoundRobin, S.LastFirst]


def once(job, n, policy, resume, log, err, max_steps=200000, at=None):
    log.seek(0), log.truncate(0), err.seek(0), err.truncate(0)
    Crash.n, Crash.at = 0, at
    sys.argv = ["hash_dirs_mpi.py"] + job.args(resume)
    try:
        return S.execute(n, program, [()] * n, policy=policy(), mode=MODES[0], max_steps=max_steps)
    finally:
        Crash.at = None


def check_rows(job, rows, before, what):
    """The database after an interruption: hashes of files, each once"""
    paths = [r[1] for r in rows]
    if len(set(paths)) != len(paths):
        fail(f"{what}: database has rows for one file twice: {sorted(paths)}")
    for b, p, t, h in rows:
        if (b, t) != (job.given, job.type) or p not in job.hash or h != before.get(p, job.hash[p]) or h == "UNREADABLE":
            fail(f"{what}: database has a row {(b, p, t, h)}")
    for p in before:
        if p not in paths:
            fail(f"{what}: hash of {p!r} is no longer in the database")


def lost(job, log, rows, what):
    """Only the directory each task was working on may be missing"""
    have = {r[1] for r in rows}
    by = {}
    for line in log.splitlines():
        m = LOG.match(line)
        if m:
            by.setdefault(m.group(1), []).append(m.group(3))
    for r, ps in by.items():
        last = os.path.dirname(ps[-1])
        for p in ps:
            if os.path.dirname(p) != last and p not in have and job.hash.get(p) not in (None, "UNREADABLE"):
                fail(f"{what}: task {r} had gone on to directory {last!r} but the hash of {p!r} is not in the database")


def resume_from(job, n, policy, log, err, what, salt):
    """Resume an interrupted run; files have changed in the meantime so that recomputed hashes are noticed"""
    before = {p: h for b, p, t, h in job.rows()}
    job.salt(salt)
    make(job.dir, job.tree, salt)
    job.reset(keep_db=True)
    expect = dict(job.hash)
    expect.update(before)
    o = once(job, n, policy, True, log, err)
    if not before:
        if o.failure is None or o.failure[0] != "abort":
            fail(f"{what}: resumed from a database without any hashes: {o.describe()}")
        if job.outfile and os.path.exists(job.outfile):
            fail(f"{what}: wrote an output file though there was nothing to resume")
        return 1
    if not o.ok():
        fail(f"{what}: when resumed, {o.describe()} {err.getvalue()[:500]}")
    job.hash, keep = expect, job.hash
    try:
        job.judge(log.getvalue(), n, before)
    except Violation as e:
        fail(f"{what}, then resumed on {n} task(s): {e}")
    finally:
        job.hash = keep
    return 2


def crash_case(case):
    tree, opts, n, pol, how, twice = case
    install()
    job = Job(newtop(), tree, opts)
    count = {"crashes": 0, "resumed": 0, "transitions": 0}

    def fresh():
        job.salt("")
        make(job.dir, tree)
        job.reset()

    def crash(k, resume):
        # how: 0: at the k-th scheduling point, 1: at the k-th database operation
        o = once(job, n, POLICIES[pol], resume, log, err, **({"max_steps": k} if how == 0 else {"at": k}))
        count["transitions"] += o.steps
        return o
    with captured(job.args()) as (log, err):
        k = 0
        while True:
            fresh()
            o = crash(k, False)
            what = f"{describe(tree, opts, n)}, schedule {pol}, interrupted at {('scheduling point', 'database operation')[how]} {k}"
            if o.failure is None:
                job.judge(log.getvalue(), n)
            elif o.failure[0] not in ("livelock", "crash"):
                fail(f"{what}: {o.describe()} {err.getvalue()[:500]}")
            rows = job.rows()
            if job.opts["db"] != 2 or rows and rows[0][3] != "0" * 32:
                check_rows(job, rows, {}, what)
                lost(job, log.getvalue(), rows, what)
                if twice and o.failure is not None and rows:
                    # interrupted again while resuming
                    image = open(job.db, "rb").read()
                    k2 = 0
                    while True:
                        with open(job.db, "wb") as f:
                            f.write(image)
                        job.salt("")
                        make(job.dir, tree)
                        job.reset(keep_db=True)
                        o2 = crash(k2, True)
                        count["crashes"] += 1
                        if o2.failure is None:
                            break
                        if o2.failure[0] not in ("livelock", "crash"):
                            fail(f"{what}, then resumed: {o2.describe()}")
                        r2 = job.rows()
                        check_rows(job, r2, {r[1]: r[3] for r in rows}, f"{what}, then resumed and interrupted at {k2}")
                        lost(job, log.getvalue(), r2, f"{what}, then resumed and interrupted at {k2}")
                        resume_from(job, n, POLICIES[k2 % 3], log, err, f"{what}, then resumed and interrupted at {k2}", "y")
                        k2 += 1
                    with open(job.db, "wb") as f:
                        f.write(image)
                m = 1 + (n + k) % 3
                count["resumed"] += resume_from(job, m, POLICIES[k % 3], log, err, what, "x") == 2
            count["crashes"] += 1
            if o.failure is None:
                break
            k += 1
    shutil.rmtree(job.top)
    count["nontrivial"] = count["crashes"]
    return {"counts": count}


def other_case(case):
    """A database with hashes of another base directory or type only, options which cannot work: stop, no output file"""
    kind, n, mode = case
    install()
    tree = (("a", "1"), ("d", (("b", "2"), ("c", "3"))))
    opts = {"outfile": "../out", "db": 1}
    job = Job(newtop(), tree, tuple(opts.items()))
    make(job.dir, tree)
    with captured([]) as (log, err):
        job.reset()
        rows = []
        if kind in ("basedir", "type"):
            con = sqlite3.connect(job.db)
            con.execute("create table hashes (basedir text, path text, hash_type text, hash text)")
            row = {"basedir": (job.given + "x", "a", "md5", "0"), "type": (job.given, "a", "sha1", "0")}[kind]
            con.execute("insert into hashes values(?,?,?,?)", row)
            con.commit()
            con.close()
            rows = [row]
        args = job.args(kind != "badtype") + (["--type", "nonsense"] if kind == "badtype" else [])
        sys.argv = ["hash_dirs_mpi.py"] + args
        o = S.execute(n, program, [()] * n, policy=POLICIES[mode](), mode=MODES[0])
        if o.failure is None or o.failure[0] != "abort":
            fail(f"{kind}, {n} tasks: should stop with an error, but: {o.describe()} {log.getvalue()}")
        if os.path.exists(job.outfile):
            fail(f"{kind}, {n} tasks: wrote an output file without hashing")
        if rows and job.rows() != rows:
            fail(f"{kind}, {n} tasks: the database was changed")
    shutil.rmtree(job.top)
    return {"counts": {"nontrivial": 1}}


# ---- under the real library ----
def real_case(case):
    """What goes wrong must do so again: mpirun itself may hang or lose processes"""
    for k in range(3):
        try:
            return real_run(case)
        except (Violation, subprocess.TimeoutExpired) as e:
            err = e
    if isinstance(err, Violation):
        raise err
    fail(f"{describe(*case)}: under mpirun: no end")


def real_run(case):
    tree, opts, n = case
    job = Job(newtop(), tree, opts)
    make(job.dir, tree)
    job.reset()
    for resume in (False, True) if job.db else (False,):
        before = {}
        if resume:
            before = {r[1]: r[3] for r in job.rows()}
            if not before:
                break
            con = sqlite3.connect(job.db)
            gone = sorted(before)[::2] if len(before) > 1 else []
            for p in gone:
                con.execute("delete from hashes where path=?", (p,))
                del before[p]
            con.commit()
            con.close()
        p = subprocess.run(["mpirun", "--allow-run-as-root", "--oversubscribe", "-np", str(n), "--output-filename", job.top + "/log", sys.executable, "-W", "ignore", "-B", os.path.join(REPO, SCRIPT)] + job.args(resume),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=100, env=dict(os.environ, OMPI_MCA_btl_vader_single_copy_mechanism="none"))
        if p.returncode:
            fail(f"{describe(tree, opts, n)}: under mpirun, status {p.returncode}: {p.stderr[-500:]}")
        log = ""
        for d, _, fs in os.walk(job.top + "/log"):
            if "stdout" in fs:
                with open(d + "/stdout") as f:
                    log += f.read()
        shutil.rmtree(job.top + "/log")
        try:
            job.judge(log, n, before)
        except Violation as e:
            fail(f"{describe(tree, opts, n)}: under mpirun: {e}")
    shutil.rmtree(job.top)
    return {"counts": {"traces_validated_against_impl": 1, "nontrivial": 1}}


# ---- enumeration ----
def shapes(n):
    """all ordered rooted trees with n directories"""
    if n == 1:
        return [()]

    def forests(m):
        if m == 0:
            return [()]
        return [(t,) + f for k in range(1, m + 1) for t in shapes(k) for f in forests(m - k)]
    return forests(n - 1)


NAMES = ["a.txt", "b c", "Z.dat", "md5sum", ".hid"]
SIZES = [0, 1, "hello\n", 5000, None]


def build(shape, counts, rot):
    it = iter(counts)
    k = [rot]

    def go(s, depth):
        out = []
        for i in range(next(it)):
            name, v = NAMES[(i + k[0]) % 5], SIZES[(k[0] * 3 + i) % 5]
            # (not a dangling link where an output file is to be written)
            out.append((name, 7 if v is None and name in ("md5sum", "a.txt", "Z.dat") else v))
            k[0] += 1
        for i, c in enumerate(s):
            sub = go(c, depth + 1)
            out.append((("d", "data dir", "e.txt")[(depth + i) % 3] + str(i), sub))
        # names are distinct
        return tuple(dict(out).items())
    return go(shape, 0)


OPTS = [
    (("outfile", "../out"),),
    (("outfile", "hashes.txt"), ("dirfile", "md5sum")),
    (("outfile", "../out"), ("db", 1), ("style", 1)),
    (("dirfile", ".hashes"), ("type", "sha256"), ("style", 2)),
    (("outfile", "d0/all"), ("db", 2), ("type", "sha1"), ("attrs", 1)),
    (("outfile", "Z.dat"), ("style", 3), ("attrs", 1), ("dirfile", "a.txt")),
]
DEEP = (("f1", "1"), ("f2", 3), ("x", (("g", "2"), ("y", (("h", "3"), ("z", (("i", "4"),)))))), ("w", (("j", "5"), ("k", None))), ("v", ()))
LINKS = (("f", "1"), ("real", (("g", "2"), ("sub", (("h", "3"),)))), ("alias", ("->", "real")), ("m", (("up", ("->", "../real/sub")), ("n", "4"))), ("fl", ("->", "f")), ("bad", None))
WIDE = tuple((f"d{i}", tuple((f"f{j}", f"{i}{j}") for j in range(i % 3))) for i in range(6))
ONCE = (("real", (("g", "2"),)), ("other", (("h", "3"),)))
TWICE = (("real", (("g", "2"),)), ("alias", ("->", "real")))
BIG = (("ten", 10 * MiB), ("d", (("more", 10 * MiB + 1), ("s", "s"))), ("e", (("less", 10 * MiB - 1),)), ("f", (("twenty", 20 * MiB),)))
PATS = [("include", p) for p in ("*", "*.txt", "a*", "d0/*", "./d0/*", "*/f1", "d?/f0", "[dx]*", "f1,f2", "d0/f0,,x/g", "nothing", "x//y/*", "d[!0]/*", "*.TXT")]


def main():
    global CHK
    chk = CHK = Check("C29", "model_checking")
    if chk.replay_requested({"trees": run_case, "schedules": run_case, "patterns": run_case, "interrupted": crash_case, "refused": other_case, "mpirun": real_case, "shared": shared_case}):
        return
    t = chk.thorough
    cs = []
    for nd in range(1, 6 if t else 5):
        for s in shapes(nd):
            for counts in itertools.product(range(3), repeat=nd):
                i = len(cs)
                n = 1 + i % 3
                tree = build(s, counts, i)
                for j in range(3 if t else 1):
                    o = OPTS[(i // 3 + j * 5) % len(OPTS)]
                    cs.append((tree, o if not (dict(o).get("outfile") == "d0/all" and not any(x[0] == "d0" and is_dir(x[1]) for x in tree)) else OPTS[2], n if not j else (2, 3)[j - 1], i % 4, 1 if n > 1 else 0, 60 if t else 25))
    chk.run_cases("trees", cs, run_case, limit=300)
    cs = []
    for tree in (DEEP, LINKS, WIDE, ()):
        for i, o in enumerate(OPTS):
            if dict(o).get("outfile") == "d0/all" and tree is not WIDE:
                o = OPTS[2]
            for n in (1, 2, 3, 4) if t else (1, 2, 3):
                for mode in range(4):
                    if t or (mode + i + n) % 4 == 0:
                        cs.append((tree, o, n, mode, 3, (4000 if t else 600) if n > 1 else 1))
    for n in (1, 2, 3):
        cs.append((BIG, OPTS[n - 1], n, 0, 1, 20 if t else 5))
    cs = cs[-3:] + cs[:-3]
    chk.run_cases("schedules", cs, run_case, limit=800)
    cs = []
    for tree in (DEEP, WIDE, build(shapes(3)[0], (2, 2, 2), 1)):
        for i, (k, p) in enumerate(PATS):
            base = OPTS[(i + len(tree)) % 3]
            cs.append((tree, base + ((k, p),), 1 + i % 2, 0, 0, 1))
            cs.append((tree, base + (("exclude", p),), 1 + i % 2, 0, 0, 1))
            for k2, q in PATS if t else PATS[i % 4::4]:
                cs.append((tree, base + ((k, p), ("exclude", q)), 1 + i % 2, 0, 0, 1))
    chk.run_cases("patterns", cs, run_case)
    cs = []
    two = (("a", "1"), ("b", (("c", "2"), ("d", "3"))), ("e", (("f", None),)))
    for tree in (two, DEEP, LINKS, WIDE):
        for n in (1, 2, 3):
            for pol in range(3 if n > 1 else 1):
                for how in (0, 1):
                    for o in ((("outfile", "../out"), ("db", 1)), (("outfile", "../out"), ("db", 2), ("dirfile", ".h"), ("type", "sha1"))):
                        twice = t or tree is two
                        cs.append((tree, o, n, pol, how, twice))
    chk.run_cases("interrupted", cs, crash_case, limit=800)
    chk.run_cases("refused", [(k, n, m) for k in ("empty", "basedir", "type", "badtype") for n in (1, 2, 3) for m in range(3 if n > 1 else 1)], other_case)
    cs = [(ONCE, (("dirfile", "h"), ("outfile", "h2")), 2, 3, 6000 if t else 1500), (TWICE, (("dirfile", "h"),), 2, 3, 6000 if t else 1500)]
    chk.run_cases("shared", cs, shared_case, limit=800)
    # (a directory which is reached in two ways: see the known finding)
    cs = [(tree, OPTS[i], n) for tree in (DEEP, LINKS, WIDE) for i in (range(4) if t else (1, 2)) for n in (1, 2, 4) if not (tree is LINKS and "dirfile" in dict(OPTS[i]))]
    if not chk.violations:
        chk.run_cases("mpirun", cs, real_case, nproc=2, limit=300)
    chk.assumptions = ["a schedule decides which task runs next at each MPI call; file and database operations between MPI calls are not interleaved",
                       "a crash ends all tasks at an MPI call or a database operation; SQLite itself is trusted to keep committed rows and roll back others"]
    chk.finish(rule="every directory tree with up to 4 (thorough 5) directories and up to 2 files in each, 1 to 3 tasks, several option sets; all schedules up to the budget by number of preemptions, in four modes of the library; "
               "interruption at every scheduling point and database operation (also while resuming), followed by --resume with files changed; include and exclude patterns",
               extra={"states": chk.cov.get("schedules", 0) + chk.cov.get("crashes", 0)})


if __name__ == "__main__":
    main()
