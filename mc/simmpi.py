"""
A simulated MPI library in which every rank is a thread and exactly one thread
runs at a time, under the control of an explicit scheduler.

The real virgo code runs unmodified on top of it: a fake "mpi4py" package is
put in sys.modules, and each simulated rank gets its own copy of the virgo
modules, as it would in a process of its own.

Every MPI call is a scheduling point.  The nondeterminism which the MPI standard
leaves open is under control of the harness:

  * which rank runs next (Policy / Explorer below)
  * eager:  a blocking send may return before it is received, or not (rendezvous)
  * strict: rooted collectives may synchronise all ranks, or let ranks leave early
  * late:   data of non-blocking operations move when posted/matched, or only when
            completed by Wait; until then receive buffers hold garbage

Misuse which MPI makes erroneous is detected: deadlock, collectives called in
different order or with different roots or sizes, truncation, messages never
received, requests never completed, non-contiguous buffers, use of freed handles.
"""
import operator
import pickle
import sys
import threading
import types
import importlib

import numpy as np


class MPIError(Exception):
    """Erroneous use of MPI: a violation"""


class Deadlock(Exception):
    """No rank can make progress: a violation"""


class Unsupported(Exception):
    """The code called something which the simulation does not provide"""


class Aborted(BaseException):
    """comm.Abort() was called on some rank"""


class Killed(BaseException):
    """Unwinds a rank when the execution is over"""


class Divergence(Exception):
    """Replaying a schedule prefix did not give the same choices"""


# --------------------------------------------------------------------------
# Scheduling policies
# --------------------------------------------------------------------------
class Policy:
    """choose(enabled, current) returns the index into enabled of the next rank.
    enabled is in canonical order: the current rank first if it can go on, then
    ascending."""
    def choose(self, enabled, current_enabled):
        return 0


class RoundRobin(Policy):
    """Switch at every opportunity"""
    def choose(self, enabled, current_enabled):
        return 1 if (current_enabled and len(enabled) > 1) else 0


class LastFirst(Policy):
    """Run to block, highest rank first"""
    def choose(self, enabled, current_enabled):
        return 0 if current_enabled else len(enabled) - 1


class Replay(Policy):
    """Follow a list of choices, then take choice 0"""
    def __init__(self, prefix, expect=None):
        self.prefix = list(prefix)
        self.points = []       # (number enabled, current_enabled, choice)
        self.expect = expect   # sequence of enabled lists of the prefix

    def choose(self, enabled, current_enabled):
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= len(enabled):
            raise Divergence(f"choice {c} of {len(enabled)} at point {i}")
        if self.expect is not None and i < len(self.expect) and self.expect[i] != tuple(enabled):
            raise Divergence(f"enabled {enabled} expected {self.expect[i]} at point {i}")
        self.points.append((tuple(enabled), current_enabled, c))
        return c


# --------------------------------------------------------------------------
# Operations and datatypes
# --------------------------------------------------------------------------
class Op:
    def __init__(self, name, pyfunc, npfunc):
        self.name, self.pyfunc, self.npfunc = name, pyfunc, npfunc

    def __call__(self, x, y):
        return self.pyfunc(x, y)

    @classmethod
    def Create(cls, function, commute=False):
        raise Unsupported("Op.Create")

    def Free(self):
        pass

    def Is_commutative(self):
        return True

    def Reduce_local(self, inbuf, inoutbuf):
        a = _bufspec(inbuf, "Reduce_local")
        b = _bufspec(inoutbuf, "Reduce_local", writable=True)
        if a.count != b.count:
            raise MPIError("Reduce_local with different counts")
        b.arr[...] = self.npfunc(a.arr.reshape(b.arr.shape), b.arr).astype(b.arr.dtype)


def _logical(f):
    return lambda x, y: f(bool(x), bool(y))


SUM = Op("SUM", operator.add, np.add)
PROD = Op("PROD", operator.mul, np.multiply)
MAX = Op("MAX", lambda x, y: y if y > x else x, np.maximum)
MIN = Op("MIN", lambda x, y: y if y < x else x, np.minimum)
LAND = Op("LAND", _logical(operator.and_), np.logical_and)
LOR = Op("LOR", _logical(operator.or_), np.logical_or)
LXOR = Op("LXOR", _logical(operator.xor), np.logical_xor)
BAND = Op("BAND", operator.and_, np.bitwise_and)
BOR = Op("BOR", operator.or_, np.bitwise_or)
BXOR = Op("BXOR", operator.xor, np.bitwise_xor)


def _minloc(x, y):
    return y if (y[0] < x[0] or (y[0] == x[0] and y[1] < x[1])) else x


def _maxloc(x, y):
    return y if (y[0] > x[0] or (y[0] == x[0] and y[1] < x[1])) else x


MINLOC = Op("MINLOC", _minloc, None)
MAXLOC = Op("MAXLOC", _maxloc, None)


class Datatype:
    def __init__(self, dtype, committed=False, predefined=False):
        self.dtype = np.dtype(dtype)
        self.committed = committed
        self.predefined = predefined
        self.freed = False

    def Commit(self):
        self._check()
        self.committed = True
        return self

    def Free(self):
        self._check()
        if self.predefined:
            raise MPIError("freeing a predefined datatype")
        self.freed = True

    def Get_size(self):
        self._check()
        return self.dtype.itemsize
    size = property(Get_size)

    def Get_extent(self):
        self._check()
        return (0, self.dtype.itemsize)
    extent = property(lambda self: self.dtype.itemsize)

    def Dup(self):
        return Datatype(self.dtype, True)

    def Create_contiguous(self, count):
        self._check()
        return Datatype(np.dtype((np.void, self.dtype.itemsize * count)))

    def _check(self):
        if self.freed:
            raise MPIError("use of a freed datatype")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Datatype." + name)


_AUTO = set("?bBhHiIlLqQfdgFDG")


class _Buf:
    __slots__ = ("arr", "count", "dtype", "counts", "displs", "raw", "sig")


def _check_contiguous(arr, what):
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise MPIError(f"{what}: buffer is not contiguous")


def _is_datatype(x):
    return isinstance(x, Datatype)


def _bufspec(spec, what, writable=False, vector=None):
    """Interpret an mpi4py message specification. vector is the number of ranks
    for the v-variants"""
    b = _Buf()
    b.counts = b.displs = None
    if spec is None:
        return None
    dt = None
    count = None
    if isinstance(spec, (list, tuple)):
        spec = list(spec)
        arr = spec[0]
        rest = spec[1:]
        if rest and (_is_datatype(rest[-1]) or isinstance(rest[-1], str)):
            dt = rest.pop()
            if isinstance(dt, str):
                dt = Datatype(dt, True, True)
        if len(rest) == 1:
            c = rest[0]
            if vector is not None and isinstance(c, (list, tuple)) and len(c) == 2 and not np.isscalar(c[0]):
                b.counts, b.displs = c
            elif vector is not None and not np.isscalar(c) and c is not None:
                b.counts = c
            else:
                count = c
        elif len(rest) == 2:
            if vector is not None:
                b.counts, b.displs = rest
            else:
                raise Unsupported("message specification " + repr(rest))
        elif len(rest) > 2:
            raise Unsupported("message specification")
        if arr is None:
            b.arr = np.zeros(0, dtype=np.uint8)
            b.raw = b.arr
            b.count = 0
            b.sig = None
            b.dtype = b.arr.dtype
            if b.counts is not None:
                b.counts = [0] * vector
                b.displs = [0] * vector
            return b
    else:
        arr = spec
    if isinstance(arr, np.generic):
        arr = np.asarray(arr)
        if writable:
            raise MPIError(f"{what}: receive buffer is read-only")
    if isinstance(arr, (bytes, bytearray, memoryview)):
        arr = np.frombuffer(arr, dtype=np.uint8)
    if not isinstance(arr, np.ndarray):
        raise Unsupported(f"{what}: buffer of type {type(arr)}")
    _check_contiguous(arr, what)
    if writable and not arr.flags.writeable:
        raise MPIError(f"{what}: receive buffer is read-only")
    if dt is None:
        ch = arr.dtype.char
        if ch == "c" or ch not in _AUTO or not arr.dtype.isnative:
            raise MPIError(f"{what}: no MPI datatype for array of dtype {arr.dtype!r}")
        if arr.dtype.byteorder not in ("=", "|"):
            raise MPIError(f"{what}: no MPI datatype for dtype with explicit byte order")
        item = arr.dtype
    else:
        dt._check()
        if not dt.committed:
            raise MPIError(f"{what}: datatype was not committed")
        item = dt.dtype
    b.arr = arr
    b.dtype = item
    size = max(item.itemsize, 1)
    if arr.ndim == 1 and arr.flags.c_contiguous:
        flat = arr
    else:
        # keeps memory order; a view because the array is contiguous
        flat = arr.reshape(-1, order="C" if arr.flags.c_contiguous else "F")
    # Elements of the type given. Very large padded types are never touched as a whole.
    if item.itemsize == arr.dtype.itemsize:
        b.raw = flat
    else:
        u = flat.view(np.uint8)
        n = u.size // size
        b.raw = u[:n * size].view(np.dtype((np.void, size)))
    b.count = b.raw.size
    if count is not None:
        if count > b.count:
            raise MPIError(f"{what}: count {count} exceeds buffer of {b.count}")
        b.raw = b.raw[:count]
        b.count = int(count)
    if vector is not None:
        if b.counts is None:
            base = b.count // vector
            b.counts = [base] * vector
            if b.count % vector and True:
                b.counts = [base + (1 if i < b.count % vector else 0) for i in range(vector)]
        else:
            b.counts = [int(x) for x in b.counts]
        if b.displs is None:
            b.displs = list(np.cumsum([0] + list(b.counts))[:-1])
        else:
            b.displs = [int(x) for x in b.displs]
        if len(b.counts) != vector or len(b.displs) != vector:
            raise MPIError(f"{what}: wrong number of counts")
        for c, d in zip(b.counts, b.displs):
            if c < 0 or (c > 0 and (d < 0 or d + c > b.count)):
                raise MPIError(f"{what}: counts/displacements outside buffer")
    b.sig = item
    return b


def _copy_in(dst, src):
    """Copy elements of one flat buffer to another (same item size)"""
    if dst.dtype.itemsize != src.dtype.itemsize:
        # byte level
        n = min(dst.nbytes, src.nbytes)
        dst.view(np.uint8)[:n] = src.view(np.uint8)[:n]
        return
    if dst.dtype.names and dst.dtype == src.dtype and dst.dtype.itemsize > 4096:
        for name in dst.dtype.names:
            dst[name] = src[name]
        return
    if dst.dtype == src.dtype:
        dst[...] = src
        return
    if dst.dtype.itemsize == 0:
        return
    dst.view(np.dtype((np.void, dst.dtype.itemsize)))[...] = src.view(np.dtype((np.void, src.dtype.itemsize)))


def _snapshot(raw):
    if raw.dtype.names and raw.dtype.itemsize > 4096:
        new = np.zeros(raw.shape, dtype=raw.dtype)
        _copy_in(new, raw)
        return new
    return raw.copy()


def _poison(raw):
    if raw.dtype.names and raw.dtype.itemsize > 4096:
        for name in raw.dtype.names:
            raw[name] = -0x5A5A5A5A
        return
    if raw.nbytes and raw.flags.writeable:
        try:
            raw.view(np.uint8)[...] = 0xA5
        except (ValueError, TypeError):
            pass


# --------------------------------------------------------------------------
# World
# --------------------------------------------------------------------------
ANY_SOURCE = -2
ANY_TAG = -1
PROC_NULL = -3
UNDEFINED = -32766
ROOT = -4


class _InPlace:
    def __repr__(self):
        return "IN_PLACE"


IN_PLACE = _InPlace()

_tls = threading.local()


class Mode:
    def __init__(self, eager=True, strict=False, late=False):
        self.eager, self.strict, self.late = eager, strict, late

    def __repr__(self):
        return f"Mode(eager={self.eager},strict={self.strict},late={self.late})"

    def key(self):
        return (self.eager, self.strict, self.late)


STANDARD_MODES = [Mode(True, False, False), Mode(False, True, True)]


class _Group:
    """State of one communicator, shared by its ranks"""
    def __init__(self, world, members, name):
        self.world = world
        self.members = members          # world ranks
        self.name = name
        self.slots = {}                 # sequence number -> collective in progress
        self.nseq = [0] * len(members)
        self.msgs = {}                  # (src, dst) -> list of sends not yet matched
        self.recvs = {}                 # dst -> list of posted receives not yet matched
        self.freed = [False] * len(members)


class _Slot:
    def __init__(self, kind, check, n):
        self.kind, self.check = kind, check
        self.contrib = {}
        self.left = 0
        self.n = n
        self.result = None
        self.extra = {}


class _Send:
    def __init__(self, src, tag, payload, buf=None):
        self.src, self.tag, self.payload, self.buf = src, tag, payload, buf
        self.matched = False


class _Recv:
    def __init__(self, src, tag, buf):
        self.src, self.tag, self.buf = src, tag, buf
        self.msg = None
        self.done = False


class Status:
    def __init__(self):
        self.source = self.tag = -1
        self._count = 0
        self._nbytes = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_count(self, datatype=None):
        if datatype is None:
            return self._nbytes
        return self._nbytes // datatype.Get_size()

    def Get_elements(self, datatype):
        return self.Get_count(datatype)


class Request:
    def __init__(self, comm, kind, obj, pickled=False):
        self.comm, self.kind, self.obj, self.pickled = comm, kind, obj, pickled
        self.complete = False
        self.value = None
        comm._g.world.open_requests.add(self)

    def _ready(self):
        c = self.comm
        if self.kind == "send":
            return c._g.world.mode.eager or self.obj.matched
        c._progress_recv(self.obj)
        return self.obj.msg is not None

    def _finish(self, status=None):
        if self.complete:
            return
        self.complete = True
        self.comm._g.world.open_requests.discard(self)
        if self.kind == "send" and self.obj.payload is None:
            # the caller may change the buffer from now on
            self.obj.payload = _snapshot(self.obj.buf.raw)
        if self.kind == "recv":
            self.value = self.comm._deliver(self.obj, status)

    def Wait(self, status=None):
        w = self.comm._g.world
        if not self.complete:
            w.point()
            w.block(self._ready, f"Wait({self.kind})")
            self._finish(status)
        return True

    def wait(self, status=None):
        self.Wait(status)
        return self.value

    def Test(self, status=None):
        w = self.comm._g.world
        w.point()
        w.spin()
        if self.complete or self._ready():
            self._finish(status)
            return True
        return False

    def test(self, status=None):
        ok = self.Test(status)
        return (ok, self.value)

    @classmethod
    def Waitall(cls, requests, statuses=None):
        for r in requests:
            r.Wait()
        return True

    @classmethod
    def waitall(cls, requests, statuses=None):
        return [r.wait() for r in requests]

    @classmethod
    def Waitany(cls, requests, status=None):
        act = [i for i, r in enumerate(requests) if not r.complete]
        if not act:
            return UNDEFINED
        w = requests[act[0]].comm._g.world
        w.point()
        w.block(lambda: any(requests[i]._ready() for i in act), "Waitany")
        for i in act:
            if requests[i]._ready():
                requests[i]._finish(status)
                return i

    @classmethod
    def Testall(cls, requests, statuses=None):
        return all([r.Test() for r in requests])

    def Free(self):
        self.comm._g.world.open_requests.discard(self)


SPIN_LIMIT = 1     # polls without any progress elsewhere before somebody else has to run


class World:
    """One execution of a program on nranks simulated ranks"""
    def __init__(self, nranks, policy, mode, max_steps=200000):
        self.n = nranks
        self.policy = policy
        self.mode = mode
        self.max_steps = max_steps
        self.steps = 0
        self.switches = 0
        self.open_requests = set()
        self.groups = []
        self.conds = [None] * nranks       # None: runnable; callable: blocked
        self.what = [""] * nranks
        self.finished = [False] * nranks
        self.current = None
        self.failure = None                # (kind, message)
        self.killing = False
        self.locks = [threading.Semaphore(0) for _ in range(nranks)]
        self.done = threading.Semaphore(0)
        self.spinning = [0] * nranks
        self.spin_mark = [0] * nranks
        self.progress = 0
        self.world_group = self.new_group(list(range(nranks)), "WORLD")
        self.aborted = False
        self.max_message = 0               # bytes in the largest buffer message

    def new_group(self, members, name):
        g = _Group(self, members, name)
        self.groups.append(g)
        return g

    # ---- scheduling ----
    def me(self):
        return _tls.rank

    def _enabled(self):
        out = []
        cur = self.current
        for r in range(self.n):
            if self.finished[r]:
                continue
            c = self.conds[r]
            if c is None or c():
                out.append(r)
        if not out:
            # nobody else can go on: let those go on which are polling (bounded polling ends, other polling is a livelock)
            out = [r for r in range(self.n) if not self.finished[r] and self.what[r] == "polling"]
        cur_en = cur in out
        if cur_en:
            out.remove(cur)
            out.insert(0, cur)
        return out, cur_en

    def fail(self, kind, msg):
        if self.failure is None:
            self.failure = (kind, msg)
        self.killing = True

    def _check_kill(self):
        if self.killing:
            raise Killed()

    def _switch(self, me_finished=False):
        """Pick the next rank to run; returns when this rank is to run"""
        me = _tls.rank
        self.steps += 1
        if self.steps > self.max_steps and not self.killing:
            self.fail("livelock", f"no end after {self.max_steps} scheduling points")
        if not self.killing:
            enabled, cur_en = self._enabled()
            if not enabled:
                if all(self.finished):
                    self.done.release()
                    return
                self.fail("deadlock", "; ".join(f"rank {r}: {self.what[r]}" for r in range(self.n) if not self.finished[r]))
            else:
                if len(enabled) > 1:
                    try:
                        nxt = enabled[self.policy.choose(enabled, cur_en)]
                    except Divergence as e:
                        self.fail("divergence", str(e))
                        nxt = None
                else:
                    nxt = enabled[0]
        if self.killing:
            # wake up the others one by one so that they unwind
            live = [r for r in range(self.n) if not self.finished[r] and r != me]
            if me_finished:
                if live:
                    self.current = live[0]
                    self.locks[live[0]].release()
                else:
                    self.done.release()
                return
            raise Killed()
        if nxt == me and not me_finished:
            return
        self.switches += 1
        self.current = nxt
        self.locks[nxt].release()
        if not me_finished:
            self.locks[me].acquire()
            self._check_kill()

    def point(self):
        """Scheduling point: others may run before the caller goes on"""
        self._check_kill()
        if self.n > 1:
            self._switch()
        else:
            self.steps += 1
            if self.steps > self.max_steps:
                self.fail("livelock", f"no end after {self.max_steps} scheduling points")
                raise Killed()

    def block(self, cond, what):
        """Wait until cond() is true"""
        me = _tls.rank
        self.progress += 1
        if cond():
            return
        self.conds[me] = cond
        self.what[me] = what
        self._switch()
        self.conds[me] = None
        self.what[me] = ""

    def spin(self):
        """Called in polling operations: let somebody else run until something changes"""
        me = _tls.rank
        mark = self.progress
        if self.spin_mark[me] != mark:
            self.spinning[me] = 0
        self.spinning[me] += 1
        if self.spinning[me] > SPIN_LIMIT:
            self.conds[me] = lambda: self.progress != mark
            self.what[me] = "polling"
            self._switch()
            self.conds[me] = None
            self.what[me] = ""
            self.spinning[me] = 0
        self.spin_mark[me] = self.progress

    # ---- running ----
    def run(self, fn, args):
        """Run fn(rank, comm, *args[rank]) on every rank. Returns list of
        ("ok", value) / ("exc", exception)"""
        results = [None] * self.n
        comms = [Comm(self.world_group, r) for r in range(self.n)]

        def body(r):
            self.locks[r].acquire()
            _tls.rank = r
            _tls.world = self
            _tls.comm_world = comms[r]
            try:
                self._check_kill()
                try:
                    results[r] = ("ok", fn(r, comms[r], *args[r]))
                except (Killed, Aborted):
                    raise
                except MPIError as e:
                    results[r] = ("exc", e)
                    self.fail("mpi error", f"rank {r}: {e}")
                except Unsupported as e:
                    results[r] = ("exc", e)
                    self.fail("unsupported", f"rank {r}: {e}")
                except SystemExit as e:
                    results[r] = ("exit", e.code)
                except Exception as e:
                    results[r] = ("exc", e)
            except Killed:
                results[r] = results[r] or ("killed", None)
            except Aborted as e:
                results[r] = ("abort", None)
                self.aborted = True
                self.fail("abort", f"rank {r} called Abort({e.args[0] if e.args else 0})")
            finally:
                _tls.world = None
                self.finished[r] = True
                self.conds[r] = None
                try:
                    self._switch(me_finished=True)
                except Killed:
                    self.done.release()

        pool = _pool(self.n)
        for r in range(self.n):
            pool[r].submit(body, r)
        # choose first rank
        self.current = None
        enabled = list(range(self.n))
        first = enabled[self.policy.choose(enabled, False)] if self.n > 1 else 0
        self.current = first
        self.locks[first].release()
        self.done.acquire()
        for r in range(self.n):
            pool[r].join()
        if self.failure is None:
            self._final_checks()
        return results

    def _final_checks(self):
        for g in self.groups:
            for k, v in g.msgs.items():
                if v:
                    self.fail("mpi error", f"message {k} on {g.name} was never received")
            for k, v in g.recvs.items():
                if v:
                    self.fail("mpi error", f"receive posted by {k} on {g.name} was never matched")
            for s, slot in g.slots.items():
                if len(slot.contrib) != slot.n:
                    self.fail("mpi error", f"collective {slot.kind} on {g.name} entered only by ranks {sorted(slot.contrib)}")
        if self.open_requests and self.failure is None:
            self.fail("mpi error", f"{len(self.open_requests)} request(s) never completed")


class _Worker(threading.Thread):
    def __init__(self):
        super().__init__(daemon=True)
        self.go = threading.Semaphore(0)
        self.fin = threading.Semaphore(0)
        self.start()

    def submit(self, f, *a):
        self.job = (f, a)
        self.go.release()

    def join(self):
        self.fin.acquire()

    def run(self):
        while True:
            self.go.acquire()
            f, a = self.job
            try:
                f(*a)
            finally:
                self.fin.release()


_workers = []
_workers_pid = None


def _pool(n):
    global _workers, _workers_pid
    import os
    if _workers_pid != os.getpid():
        _workers = []
        _workers_pid = os.getpid()
    while len(_workers) < n:
        _workers.append(_Worker())
    return _workers


# --------------------------------------------------------------------------
# Communicator
# --------------------------------------------------------------------------
def _clone(obj):
    return pickle.loads(pickle.dumps(obj, protocol=pickle.HIGHEST_PROTOCOL))


class Comm:
    def __init__(self, group, rank):
        self._g = group
        self._r = rank
        self._freed = False

    # ---- queries ----
    def _check(self):
        if self._freed:
            raise MPIError("use of a freed communicator")
        self._g.world._check_kill()

    def Get_rank(self):
        self._check()
        return self._r

    def Get_size(self):
        self._check()
        return len(self._g.members)
    rank = property(Get_rank)
    size = property(Get_size)

    def Get_name(self):
        return self._g.name

    def Set_name(self, name):
        pass

    def Abort(self, code=0):
        raise Aborted(code)

    def __eq__(self, other):
        return isinstance(other, Comm) and other._g is self._g

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return id(self._g)

    def __bool__(self):
        return True

    def py2f(self):
        raise Unsupported("py2f")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Comm." + name)

    # ---- collectives ----
    def _coll(self, kind, check, contrib, need=None, compute=None):
        """
        Enter a collective. need(slot) says when this rank may leave (in loose
        mode); compute(contrib) gives this rank's result.
        """
        self._check()
        g, w, n = self._g, self._g.world, len(self._g.members)
        w.point()
        seq = g.nseq[self._r]
        g.nseq[self._r] += 1
        slot = g.slots.get(seq)
        if slot is None:
            slot = g.slots[seq] = _Slot(kind, check, n)
        else:
            if slot.kind != kind:
                raise MPIError(f"rank {self._r} calls {kind} while rank(s) {sorted(slot.contrib)} called {slot.kind} on {g.name}")
            if slot.check != check:
                raise MPIError(f"{kind}: rank {self._r} passes {check}, rank(s) {sorted(slot.contrib)} passed {slot.check}")
        slot.contrib[self._r] = contrib
        w.progress += 1
        everybody = lambda: len(slot.contrib) == n
        if w.mode.strict or need is None:
            cond = everybody
        else:
            cond = lambda: need(slot.contrib)
        w.block(cond, f"{kind} on {g.name}")
        if kind in ("Split", "Dup"):
            res = compute(slot.contrib, slot.extra)
        else:
            res = compute(slot.contrib) if compute is not None else None
        slot.left += 1
        if slot.left == n:
            del g.slots[seq]
        return res

    def Barrier(self):
        self._coll("Barrier", None, True)
    barrier = Barrier

    # -- pickled --
    def bcast(self, obj=None, root=0):
        self._rootok(root)
        val = _clone(obj) if self._r == root else None
        r = self._coll("bcast", root, (val,), need=lambda c: root in c, compute=lambda c: c[root][0])
        return obj if self._r == root else _clone(r)

    def _rootok(self, root):
        if not (0 <= root < len(self._g.members)):
            raise MPIError(f"invalid root {root}")

    def gather(self, sendobj, root=0):
        self._rootok(root)
        n = len(self._g.members)
        me = self._r
        return self._coll("gather", root, (_clone(sendobj),),
                          need=(lambda c: len(c) == n) if me == root else (lambda c: True),
                          compute=lambda c: [_clone(c[i][0]) for i in range(n)] if me == root else None)

    def scatter(self, sendobj=None, root=0):
        self._rootok(root)
        n = len(self._g.members)
        me = self._r
        if me == root:
            sendobj = list(sendobj)
            if len(sendobj) != n:
                raise MPIError("scatter: wrong number of items")
        val = _clone(sendobj) if me == root else None
        return self._coll("scatter", root, (val,), need=lambda c: root in c,
                          compute=lambda c: _clone(c[root][0][me]))

    def allgather(self, sendobj):
        n = len(self._g.members)
        return self._coll("allgather", None, (_clone(sendobj),),
                          compute=lambda c: [_clone(c[i][0]) for i in range(n)])

    def alltoall(self, sendobj):
        n = len(self._g.members)
        me = self._r
        sendobj = list(sendobj)
        if len(sendobj) != n:
            raise MPIError("alltoall: wrong number of items")
        return self._coll("alltoall", None, (_clone(sendobj),),
                          compute=lambda c: [_clone(c[i][0][me]) for i in range(n)])

    @staticmethod
    def _fold(op, vals):
        acc = vals[0]
        for v in vals[1:]:
            acc = op(acc, v)
        return acc

    def allreduce(self, sendobj, op=SUM):
        n = len(self._g.members)
        return self._coll("allreduce", op.name, (_clone(sendobj),),
                          compute=lambda c: self._fold(op, [_clone(c[i][0]) for i in range(n)]))

    def reduce(self, sendobj, op=SUM, root=0):
        self._rootok(root)
        n = len(self._g.members)
        me = self._r
        return self._coll("reduce", (op.name, root), (_clone(sendobj),),
                          need=(lambda c: len(c) == n) if me == root else (lambda c: True),
                          compute=lambda c: self._fold(op, [_clone(c[i][0]) for i in range(n)]) if me == root else None)

    def scan(self, sendobj, op=SUM):
        me = self._r
        return self._coll("scan", op.name, (_clone(sendobj),),
                          need=lambda c: all(i in c for i in range(me + 1)),
                          compute=lambda c: self._fold(op, [_clone(c[i][0]) for i in range(me + 1)]))

    def exscan(self, sendobj, op=SUM):
        me = self._r
        return self._coll("exscan", op.name, (_clone(sendobj),),
                          need=lambda c: all(i in c for i in range(me)),
                          compute=lambda c: self._fold(op, [_clone(c[i][0]) for i in range(me)]) if me > 0 else None)

    # -- buffers --
    @staticmethod
    def _samecount(a, b, what):
        if a != b:
            raise MPIError(f"{what}: element counts differ ({a} and {b})")

    def _put(self, dst, src, what):
        """dst, src flat element arrays"""
        nb_d, nb_s = dst.size * dst.dtype.itemsize, src.size * src.dtype.itemsize
        if nb_s > nb_d:
            raise MPIError(f"{what}: message truncated ({nb_s} bytes into {nb_d})")
        if nb_s != nb_d:
            raise MPIError(f"{what}: sizes differ ({nb_s} and {nb_d} bytes)")
        _copy_in(dst, src)

    def Bcast(self, buf, root=0):
        self._rootok(root)
        b = _bufspec(buf, "Bcast", writable=self._r != root)
        me = self._r
        data = _snapshot(b.raw) if me == root else None

        def comp(c):
            if me != root:
                self._put(b.raw, c[root][0], "Bcast")
        self._coll("Bcast", root, (data,), need=lambda c: root in c, compute=comp)

    def _allgather_common(self, kind, sendbuf, recvbuf, vector, root):
        n = len(self._g.members)
        me = self._r
        isroot = root is None or me == root
        if sendbuf is IN_PLACE:
            if not isroot:
                raise MPIError("IN_PLACE on non-root")
            rb = _bufspec(recvbuf, kind, writable=True, vector=n if vector else None)
            if vector:
                part = rb.raw[rb.displs[me]:rb.displs[me] + rb.counts[me]]
            else:
                k = rb.count // n
                part = rb.raw[me * k:(me + 1) * k]
            data = _snapshot(part)
        else:
            sb = _bufspec(sendbuf, kind)
            data = _snapshot(sb.raw)
            rb = _bufspec(recvbuf, kind, writable=True, vector=n if vector else None) if isroot else None

        def comp(c):
            if not isroot:
                return
            for i in range(n):
                src = c[i][0]
                if vector:
                    dst = rb.raw[rb.displs[i]:rb.displs[i] + rb.counts[i]]
                else:
                    # The receive buffer need not be full: est_median may be longer.
                    nb = src.size * src.dtype.itemsize
                    k = nb // max(rb.dtype.itemsize, 1)
                    if (i + 1) * k > rb.count:
                        raise MPIError(f"{kind}: receive buffer too small")
                    if i > 0 and c[i][0].nbytes != c[0][0].nbytes:
                        raise MPIError(f"{kind}: ranks send different amounts")
                    dst = rb.raw[i * k:(i + 1) * k]
                self._put(dst, src, kind)
        if root is None:
            self._coll(kind, None, (data,), compute=comp)
        else:
            self._rootok(root)
            self._coll(kind, root, (data,),
                       need=(lambda c: len(c) == n) if me == root else (lambda c: True), compute=comp)

    def Allgather(self, sendbuf, recvbuf):
        # mpi4py derives the count per rank from the receive buffer: it must agree
        n = len(self._g.members)
        rb = _bufspec(recvbuf, "Allgather", writable=True)
        if sendbuf is not IN_PLACE and isinstance(recvbuf, np.ndarray):
            sb = _bufspec(sendbuf, "Allgather")
            if sb.count * n != rb.count:
                raise MPIError(f"Allgather: receive buffer of {rb.count} for {n} x {sb.count}")
        self._allgather_common("Allgather", sendbuf, recvbuf, False, None)

    def Allgatherv(self, sendbuf, recvbuf):
        self._allgather_common("Allgatherv", sendbuf, recvbuf, True, None)

    def Gather(self, sendbuf, recvbuf, root=0):
        self._allgather_common("Gather", sendbuf, recvbuf, False, root)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        self._allgather_common("Gatherv", sendbuf, recvbuf, True, root)

    def _scatter_common(self, kind, sendbuf, recvbuf, vector, root):
        self._rootok(root)
        n = len(self._g.members)
        me = self._r
        parts = None
        if me == root:
            sb = _bufspec(sendbuf, kind, vector=n if vector else None)
            if vector:
                parts = [_snapshot(sb.raw[d:d + k]) for k, d in zip(sb.counts, sb.displs)]
            else:
                k = sb.count // n
                parts = [_snapshot(sb.raw[i * k:(i + 1) * k]) for i in range(n)]
        rb = None if recvbuf is IN_PLACE else _bufspec(recvbuf, kind, writable=True)

        def comp(c):
            if rb is not None:
                self._put(rb.raw, c[root][0][me], kind)
        self._coll(kind, root, (parts,), need=lambda c: root in c, compute=comp)

    def Scatter(self, sendbuf, recvbuf, root=0):
        self._scatter_common("Scatter", sendbuf, recvbuf, False, root)

    def Scatterv(self, sendbuf, recvbuf, root=0):
        self._scatter_common("Scatterv", sendbuf, recvbuf, True, root)

    def _alltoall_common(self, kind, sendbuf, recvbuf, vector):
        n = len(self._g.members)
        me = self._r
        rb = _bufspec(recvbuf, kind, writable=True, vector=n if vector else None)
        if sendbuf is IN_PLACE:
            sb = rb
        else:
            sb = _bufspec(sendbuf, kind, vector=n if vector else None)
        if vector:
            parts = [_snapshot(sb.raw[d:d + k]) for k, d in zip(sb.counts, sb.displs)]
            outs = [rb.raw[d:d + k] for k, d in zip(rb.counts, rb.displs)]
        else:
            if sb.count % n or rb.count % n:
                raise MPIError(f"{kind}: buffer of {sb.count}/{rb.count} elements for {n} ranks")
            ks, kr = sb.count // n, rb.count // n
            parts = [_snapshot(sb.raw[i * ks:(i + 1) * ks]) for i in range(n)]
            outs = [rb.raw[i * kr:(i + 1) * kr] for i in range(n)]

        def comp(c):
            for i in range(n):
                self._put(outs[i], c[i][0][me], kind)
        self._coll(kind, None, (parts,), compute=comp)

    def Alltoall(self, sendbuf, recvbuf):
        self._alltoall_common("Alltoall", sendbuf, recvbuf, False)

    def Alltoallv(self, sendbuf, recvbuf):
        self._alltoall_common("Alltoallv", sendbuf, recvbuf, True)

    def _reduce_common(self, kind, sendbuf, recvbuf, op, root, which):
        n = len(self._g.members)
        me = self._r
        isroot = root is None or me == root
        rb = _bufspec(recvbuf, kind, writable=True) if (isroot and not (recvbuf is None)) else None
        sb = rb if sendbuf is IN_PLACE else _bufspec(sendbuf, kind)
        data = _snapshot(sb.raw)

        def comp(c):
            idx = which(me, n)
            if not idx:
                return
            arrs = [c[i][0] for i in idx]
            for a in arrs:
                self._samecount(a.size, arrs[0].size, kind)
                if a.dtype != arrs[0].dtype:
                    raise MPIError(f"{kind}: datatypes differ ({a.dtype} and {arrs[0].dtype})")
            if not isroot or rb is None:
                return
            acc = arrs[0].copy()
            for a in arrs[1:]:
                acc = op.npfunc(acc, a).astype(acc.dtype)
            self._put(rb.raw, acc, kind)
        check = (op.name, root)
        need = None
        if kind == "Reduce":
            need = (lambda c: len(c) == n) if isroot else (lambda c: True)
        elif kind in ("Scan", "Exscan"):
            need = lambda c: all(i in c for i in which(me, n))
        if kind == "Reduce" and not isroot:
            self._coll(kind, check, (data,), need=need, compute=None)
        else:
            self._coll(kind, check, (data,), need=need, compute=comp)

    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        self._reduce_common("Allreduce", sendbuf, recvbuf, op, None, lambda me, n: range(n))

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        self._rootok(root)
        self._reduce_common("Reduce", sendbuf, recvbuf, op, root, lambda me, n: range(n))

    def Scan(self, sendbuf, recvbuf, op=SUM):
        self._reduce_common("Scan", sendbuf, recvbuf, op, None, lambda me, n: range(me + 1))

    def Exscan(self, sendbuf, recvbuf, op=SUM):
        self._reduce_common("Exscan", sendbuf, recvbuf, op, None, lambda me, n: range(me))

    # -- communicators --
    def Split(self, color=0, key=0):
        n = len(self._g.members)
        me = self._r
        g = self._g
        color = UNDEFINED if color is None else int(color)

        def comp(c, memo):
            if color == UNDEFINED:
                return None
            if color not in memo:
                mem = sorted([(c[i][0][1], i) for i in range(n) if c[i][0][0] == color])
                order = [i for _, i in mem]
                memo[color] = (order, g.world.new_group([g.members[i] for i in order], f"{g.name}/split{color}"))
            order, ng = memo[color]
            return Comm(ng, order.index(me))
        res = self._coll("Split", None, ((color, int(key)),), compute=comp)
        return COMM_NULL if res is None else res

    def Dup(self, info=None):
        n = len(self._g.members)
        me = self._r
        g = self._g

        def comp(c, memo):
            if 0 not in memo:
                memo[0] = g.world.new_group(list(g.members), g.name + "/dup")
            return Comm(memo[0], me)
        return self._coll("Dup", None, (True,), compute=comp)
    Clone = Dup

    def Free(self):
        self._check()
        if self._g is self._g.world.world_group:
            raise MPIError("freeing COMM_WORLD")
        # pending communication on a freed communicator is erroneous for us
        self._freed = True

    # ---- point to point ----
    def _peer(self, r, what):
        if r == PROC_NULL:
            raise Unsupported("PROC_NULL")
        if not (0 <= r < len(self._g.members)):
            raise MPIError(f"{what}: invalid rank {r}")

    def _post_send(self, dest, tag, payload, buf=None):
        s = _Send(self._r, tag, payload, buf)
        nb = payload.nbytes if isinstance(payload, np.ndarray) else (buf.raw.nbytes if buf is not None else 0)
        self._g.world.max_message = max(self._g.world.max_message, nb)
        self._g.msgs.setdefault((self._r, dest), []).append(s)
        self._g.world.progress += 1
        # match with receives already posted
        for rc in list(self._g.recvs.get(dest, [])):
            self._progress_recv_at(rc, dest)
        return s

    def _post_recv(self, source, tag, buf):
        rc = _Recv(source, tag, buf)
        self._g.recvs.setdefault(self._r, []).append(rc)
        self._progress_recv(rc)
        self._g.world.progress += 1
        return rc

    def _progress_recv(self, rc):
        self._progress_recv_at(rc, self._r)

    def _progress_recv_at(self, rc, me):
        """Match receives in posting order"""
        if rc.msg is not None:
            return
        posted = self._g.recvs.get(me, [])
        for other in list(posted):
            if other.msg is None:
                self._try_match(other, me)
            if other is rc:
                break

    def _try_match(self, rc, me):
        n = len(self._g.members)
        srcs = range(n) if rc.src == ANY_SOURCE else (rc.src,)
        for s in srcs:
            q = self._g.msgs.get((s, me), [])
            for m in q:
                if rc.tag == ANY_TAG or rc.tag == m.tag:
                    q.remove(m)
                    m.matched = True
                    rc.msg = m
                    self._g.recvs[me].remove(rc)
                    return True
        return False

    def _deliver(self, rc, status=None):
        m = rc.msg
        payload = m.payload
        if status is not None:
            status.source, status.tag = m.src, m.tag
        if rc.buf is not None:
            if payload is None:
                payload = m.buf.raw
            if isinstance(payload, bytes):
                raise MPIError("pickled message received into a buffer")
            if payload.nbytes > rc.buf.raw.nbytes:
                raise MPIError(f"message truncated: {payload.nbytes} bytes into {rc.buf.raw.nbytes}")
            if status is not None:
                status._nbytes = payload.nbytes
            k = rc.buf.raw.size if payload.nbytes == rc.buf.raw.nbytes else payload.nbytes // max(rc.buf.raw.dtype.itemsize, 1)
            _copy_in(rc.buf.raw[:k], payload)
            return None
        if not isinstance(payload, bytes):
            raise MPIError("buffer message received as a pickled object")
        return pickle.loads(payload)

    def _blocking_send(self, dest, tag, payload, what, sync=False):
        w = self._g.world
        w.point()
        s = self._post_send(dest, tag, payload)
        if sync or not w.mode.eager:
            w.block(lambda: s.matched, f"{what} to {dest} on {self._g.name}")

    def send(self, obj, dest, tag=0):
        self._check()
        self._peer(dest, "send")
        self._blocking_send(dest, tag, pickle.dumps(obj), "send")

    def ssend(self, obj, dest, tag=0):
        self._check()
        self._peer(dest, "ssend")
        self._blocking_send(dest, tag, pickle.dumps(obj), "ssend", True)

    def Send(self, buf, dest, tag=0):
        self._check()
        self._peer(dest, "Send")
        b = _bufspec(buf, "Send")
        self._blocking_send(dest, tag, _snapshot(b.raw), "Send")

    def Ssend(self, buf, dest, tag=0):
        self._check()
        self._peer(dest, "Ssend")
        b = _bufspec(buf, "Ssend")
        self._blocking_send(dest, tag, _snapshot(b.raw), "Ssend", True)

    def _blocking_recv(self, source, tag, buf, what, status=None):
        w = self._g.world
        w.point()
        rc = self._post_recv(source, tag, buf)

        def cond():
            self._progress_recv(rc)
            return rc.msg is not None
        w.block(cond, f"{what} from {source} on {self._g.name}")
        return self._deliver(rc, status)

    def recv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._check()
        if source != ANY_SOURCE:
            self._peer(source, "recv")
        return self._blocking_recv(source, tag, None, "recv", status)

    def Recv(self, buf, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._check()
        if source != ANY_SOURCE:
            self._peer(source, "Recv")
        b = _bufspec(buf, "Recv", writable=True)
        self._blocking_recv(source, tag, b, "Recv", status)

    def _sendrecv(self, dest, sendtag, payload, source, recvtag, buf, what, status=None):
        w = self._g.world
        w.point()
        s = self._post_send(dest, sendtag, payload)
        rc = self._post_recv(source, recvtag, buf)
        eager = w.mode.eager

        def cond():
            self._progress_recv(rc)
            return rc.msg is not None and (eager or s.matched)
        w.block(cond, f"{what} with {dest}/{source} on {self._g.name}")
        return self._deliver(rc, status)

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._check()
        self._peer(dest, "sendrecv")
        return self._sendrecv(dest, sendtag, pickle.dumps(sendobj), source, recvtag, None, "sendrecv", status)

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY_SOURCE, recvtag=ANY_TAG, status=None):
        self._check()
        self._peer(dest, "Sendrecv")
        sb = _bufspec(sendbuf, "Sendrecv")
        rb = _bufspec(recvbuf, "Sendrecv", writable=True)
        if rb is None:
            rb = _bufspec(np.zeros(0, dtype=sb.dtype), "Sendrecv")
        return self._sendrecv(dest, sendtag, _snapshot(sb.raw), source, recvtag, rb, "Sendrecv", status)

    def Isend(self, buf, dest, tag=0):
        self._check()
        self._peer(dest, "Isend")
        b = _bufspec(buf, "Isend")
        w = self._g.world
        w.point()
        s = self._post_send(dest, tag, None if w.mode.late and not w.mode.eager else _snapshot(b.raw), b)
        return Request(self, "send", s)
    Issend = Isend

    def Irecv(self, buf, source=ANY_SOURCE, tag=ANY_TAG):
        self._check()
        if source != ANY_SOURCE:
            self._peer(source, "Irecv")
        b = _bufspec(buf, "Irecv", writable=True)
        w = self._g.world
        w.point()
        _poison(b.raw)
        rc = self._post_recv(source, tag, b)
        return Request(self, "recv", rc)

    def isend(self, obj, dest, tag=0):
        self._check()
        self._peer(dest, "isend")
        self._g.world.point()
        s = self._post_send(dest, tag, pickle.dumps(obj))
        return Request(self, "send", s, True)

    def irecv(self, buf=None, source=ANY_SOURCE, tag=ANY_TAG):
        self._check()
        self._g.world.point()
        return Request(self, "recv", self._post_recv(source, tag, None), True)

    def _probe(self, source, tag):
        n = len(self._g.members)
        srcs = range(n) if source == ANY_SOURCE else (source,)
        found = []
        for s in srcs:
            for m in self._g.msgs.get((s, self._r), []):
                if tag == ANY_TAG or m.tag == tag:
                    found.append(m)
                    break
        return found

    def Iprobe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._check()
        w = self._g.world
        w.point()
        found = self._probe(source, tag)
        if not found:
            w.spin()
            return False
        m = found[0] if len(found) == 1 else found[w.env_choice(len(found))]
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return True
    iprobe = Iprobe

    def Probe(self, source=ANY_SOURCE, tag=ANY_TAG, status=None):
        self._check()
        w = self._g.world
        w.point()
        w.block(lambda: bool(self._probe(source, tag)), "Probe")
        found = self._probe(source, tag)
        m = found[0] if len(found) == 1 else found[w.env_choice(len(found))]
        if status is not None:
            status.source, status.tag = m.src, m.tag
        return True
    probe = Probe


def _env_choice(self, k):
    """Which of several pending messages is seen: a choice of the environment"""
    pol = self.policy
    if hasattr(pol, "env_choice"):
        return pol.env_choice(k)
    return pol.choose(list(range(1000, 1000 + k)), False)


World.env_choice = _env_choice


class _Null:
    def __getattr__(self, name):
        raise MPIError("operation on COMM_NULL")

    def __bool__(self):
        return False


COMM_NULL = _Null()


# --------------------------------------------------------------------------
# The fake mpi4py package
# --------------------------------------------------------------------------
class _MPIModule(types.ModuleType):
    def __getattr__(self, name):
        if name == "COMM_WORLD":
            return _tls.comm_world
        if name == "COMM_SELF":
            raise Unsupported("COMM_SELF")
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("MPI." + name)


def make_fake():
    m = _MPIModule("mpi4py.MPI")
    for op in (SUM, PROD, MAX, MIN, LAND, LOR, LXOR, BAND, BOR, BXOR, MINLOC, MAXLOC):
        setattr(m, op.name, op)
    m.Op, m.Datatype, m.Request, m.Status, m.Comm, m.Intracomm = Op, Datatype, Request, Status, Comm, Comm
    m.ANY_SOURCE, m.ANY_TAG, m.PROC_NULL, m.UNDEFINED, m.IN_PLACE = ANY_SOURCE, ANY_TAG, PROC_NULL, UNDEFINED, IN_PLACE
    m.COMM_NULL = COMM_NULL
    m.REQUEST_NULL = None
    m.Exception = MPIError
    for name, dt in dict(BYTE="u1", CHAR="i1", SIGNED_CHAR="i1", UNSIGNED_CHAR="u1", SHORT="i2", UNSIGNED_SHORT="u2",
                         INT="i4", UNSIGNED="u4", LONG="i8", UNSIGNED_LONG="u8", LONG_LONG="i8", UNSIGNED_LONG_LONG="u8",
                         FLOAT="f4", DOUBLE="f8", INT8_T="i1", INT16_T="i2", INT32_T="i4", INT64_T="i8", UINT8_T="u1",
                         UINT16_T="u2", UINT32_T="u4", UINT64_T="u8", BOOL="?", C_BOOL="?", COMPLEX="c8",
                         DOUBLE_COMPLEX="c16", INTEGER="i4", REAL8="f8").items():
        setattr(m, name, Datatype(dt, True, True))
    m.Finalize = lambda: None
    m.Init = lambda: None
    m.Is_initialized = lambda: True
    m.Is_finalized = lambda: False
    m.Wtime = lambda: 0.0
    m.Get_processor_name = lambda: "sim"
    pkg = types.ModuleType("mpi4py")
    pkg.__path__ = []
    pkg.MPI = m
    pkg.rc = types.SimpleNamespace(initialize=True, finalize=True, threads=True)
    util = types.ModuleType("mpi4py.util")
    util.__path__ = []
    dtlib = types.ModuleType("mpi4py.util.dtlib")

    def from_numpy_dtype(dtype):
        dtype = np.dtype(dtype)
        if dtype.hasobject:
            raise ValueError("NumPy datatype with object entries")
        if not dtype.isnative:
            raise ValueError("NumPy datatype with non-native byteorder")
        if dtype.fields is None and dtype.subdtype is None and dtype.kind not in "biufcSUV":
            raise ValueError("NumPy datatype not supported")
        return Datatype(dtype)

    def to_numpy_dtype(datatype):
        return datatype.dtype
    dtlib.from_numpy_dtype = from_numpy_dtype
    dtlib.to_numpy_dtype = to_numpy_dtype
    util.dtlib = dtlib
    pkg.util = util
    return {"mpi4py": pkg, "mpi4py.MPI": m, "mpi4py.util": util, "mpi4py.util.dtlib": dtlib}


def install():
    sys.modules.update(make_fake())


_rank_modules = {}


def rank_modules(rank, names):
    """Import a separate copy of the named virgo modules for this rank"""
    key = (rank, tuple(names))
    if key in _rank_modules:
        return _rank_modules[key]
    saved = {k: v for k, v in sys.modules.items() if k == "virgo" or k.startswith("virgo.")}
    for k in saved:
        del sys.modules[k]
    mods = {n: importlib.import_module(n) for n in names}
    _rank_modules[key] = mods
    return mods


class Outcome:
    """What one execution did"""
    def __init__(self, results, world):
        self.results = results
        self.failure = world.failure
        self.steps = world.steps
        self.switches = world.switches
        self.max_message = world.max_message

    def ok(self):
        return self.failure is None and all(r is not None and r[0] == "ok" for r in self.results)

    def values(self):
        return [r[1] for r in self.results]

    def describe(self):
        if self.failure is not None:
            return f"{self.failure[0]}: {self.failure[1]}"
        bad = [(i, r) for i, r in enumerate(self.results) if r[0] != "ok"]
        if bad:
            return "; ".join(f"rank {i}: {r[0]} {type(r[1]).__name__ if r[1] is not None else ''} {r[1]}" for i, r in bad)
        return "ok"


def execute(nranks, fn, args, policy=None, mode=None, max_steps=200000):
    w = World(nranks, policy or Policy(), mode or STANDARD_MODES[0], max_steps)
    res = w.run(fn, args)
    return Outcome(res, w)


def explore(nranks, fn, make_args, mode, bound, visit, limit=None):
    """
    Enumerate all schedules with at most `bound` preemptions, depth first,
    deviating as late as possible first.  visit(outcome, choices) is called for
    each complete execution.  Returns (executions, scheduling points, capped).
    """
    stack = [((), 0, None)]
    runs = points = 0
    while stack:
        prefix, start_cost, expect = stack.pop()
        pol = Replay(prefix, expect)
        out = execute(nranks, fn, make_args(), policy=pol, mode=mode)
        runs += 1
        points += out.steps
        if out.failure is not None and out.failure[0] == "divergence":
            raise Divergence(out.failure[1])
        if visit(out, tuple(p[2] for p in pol.points)):
            return runs, points, False
        if limit is not None and runs >= limit:
            return runs, points, bool(stack)
        enab = [p[0] for p in pol.points]
        choices = [p[2] for p in pol.points]
        cost = 0
        for i, (en, cur, c) in enumerate(pol.points):
            if i >= len(prefix):
                extra = 1 if cur else 0
                if cost + extra <= bound:
                    for alt in range(1, len(en)):
                        stack.append((tuple(choices[:i]) + (alt,), cost + extra, enab[:i + 1]))
            if cur and c != 0:
                cost += 1
    return runs, points, False
