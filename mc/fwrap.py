"""Driver of the Fortran HDF5 wrapper: builds the library of the repository with a generated program which
executes scripts of wrapper calls, and encodes scripts and decodes their results"""
import os
import shutil
import struct
import subprocess
import numpy as np
from mc.framework import REPO

TYPES = {"i4": ("integer*4", 1), "i8": ("integer*8", 2), "f4": ("real*4", 3), "f8": ("real*8", 4), "S": ("character(len=slen)", 5)}
PATTERN = 0x5A


def decl(t, r):
    if r == 0:
        return f"{TYPES[t][0]} :: arr"
    return f"{TYPES[t][0]} :: arr(stride*d({1}){''.join(f',d({i})' for i in range(2, r + 1))})"


def sect(r):
    return "arr" if r == 0 else "arr(1::stride" + ",:" * (r - 1) + ")"


def routine(t, r):
    name = f"do_{t.lower()}_{r}"
    return f"""
  subroutine {name}(op, slen, stride, d)
    integer, intent(in) :: op, slen, stride, d(7)
    {decl(t, r)}
    read(10) arr
    select case(op)
    case(5)
       call hdf5_write_data(handle, name, {sect(r)}, gzip=gz, overwrite=ow, szip=sz, extensible=ex, start=st, count=ct, initial_size=ini, chunk_size=ch)
    case(6)
       call hdf5_read_data(handle, name, {sect(r)}, st, ct)
       write(11) arr
    case(7)
       call hdf5_write_attribute(handle, name, {sect(r)}, ow)
    case(8)
       call hdf5_read_attribute(handle, name, {sect(r)})
       write(11) arr
    end select
  end subroutine {name}
"""


def driver_source():
    disp = "".join(f"       case({TYPES[t][1] * 10 + r})\n          call do_{t.lower()}_{r}(op, slen, stride, d)\n" for t in TYPES for r in range(8))
    return f"""
module driver
  use hdf5
  use hdf5_wrapper
  implicit none
  integer :: handles(0:1100) = -999, handle
  character(len=:), allocatable :: name, name2
  integer, allocatable :: gz, st(:), ct(:), ini(:), ch(:)
  logical, allocatable :: ow, sz, ex
contains
  subroutine get_int(i)
    integer, intent(out) :: i
    read(10) i
  end subroutine
  subroutine get_str(s)
    character(len=:), allocatable, intent(out) :: s
    integer :: n
    read(10) n
    allocate(character(len=n) :: s)
    read(10) s
  end subroutine
  subroutine get_opt_int(x)
    integer, allocatable, intent(inout) :: x
    integer :: i
    if(allocated(x))deallocate(x)
    read(10) i
    if(i.ge.0)then
       allocate(x)
       x = i
    end if
  end subroutine
  subroutine get_opt_log(x)
    logical, allocatable, intent(inout) :: x
    integer :: i
    if(allocated(x))deallocate(x)
    read(10) i
    if(i.ge.0)then
       allocate(x)
       x = (i.ne.0)
    end if
  end subroutine
  subroutine get_opt_arr(x)
    integer, allocatable, intent(inout) :: x(:)
    integer :: n
    if(allocated(x))deallocate(x)
    read(10) n
    if(n.ge.0)then
       allocate(x(n))
       read(10) x
    end if
  end subroutine
{"".join(routine(t, r) for t in TYPES for r in range(8))}
  subroutine listing(op)
    integer, intent(in) :: op
    integer :: n, m, i
    character(len=500), allocatable :: names(:)
    n = -7
    if(op.eq.11)call hdf5_list_datasets(handle, name, n)
    if(op.eq.12)call hdf5_list_groups(handle, name, n)
    if(op.eq.13)call hdf5_list_attributes(handle, name, n)
    allocate(names(n+1))
    names = '???'
    m = -7
    if(op.eq.11)call hdf5_list_datasets(handle, name, m, names)
    if(op.eq.12)call hdf5_list_groups(handle, name, m, names)
    if(op.eq.13)call hdf5_list_attributes(handle, name, m, names)
    write(11) n, m
    do i = 1, n + 1
       write(11) names(i)
    end do
  end subroutine
end module

program main
  use driver
  use, intrinsic :: iso_fortran_env
  implicit none
  integer :: op, slot, i, j, k, slen, stride, d(7), err
  integer(kind=size_t) :: nlen
  character(len=20) :: dtype
  character(len=1000) :: path
  character(len=4096) :: script, output
  call get_command_argument(1, script)
  call get_command_argument(2, output)
  open(unit=10, file=script, access='stream', form='unformatted', status='old')
  open(unit=11, file=output, access='stream', form='unformatted', status='replace')
  do
     call get_int(op)
     if(op.eq.0)exit
     if(op.ne.15)then
        call get_int(slot)
        handle = handles(slot)
     end if
     if(op.ne.3.and.op.ne.15.and.op.ne.16)call get_str(name)
     select case(op)
     case(1)
        call get_int(j)
        if(j.lt.0)then
           call hdf5_open_file(handle, name)
        else
           call hdf5_open_file(handle, name, (j.ne.0))
        end if
        handles(slot) = handle
        write(11) handle
     case(2)
        call hdf5_create_file(handle, name)
        handles(slot) = handle
        write(11) handle
     case(3)
        call hdf5_close_file(handle)
     case(4)
        call hdf5_create_group(handle, name)
     case(5:8)
        call get_int(i)
        call get_int(slen)
        call get_int(stride)
        d = 1
        call get_int(j)
        do k = 1, j
           call get_int(d(k))
        end do
        call get_opt_int(gz)
        call get_opt_log(sz)
        call get_opt_log(ow)
        call get_opt_log(ex)
        call get_opt_arr(st)
        call get_opt_arr(ct)
        call get_opt_arr(ini)
        call get_opt_arr(ch)
        select case(i*10+j)
{disp}        end select
     case(9)
        d = -77
        call hdf5_get_dimensions(handle, name, j, d)
        write(11) j, d
     case(10)
        dtype = '?'
        call hdf5_get_type(handle, name, dtype, j)
        write(11) dtype, j
     case(11:13)
        call listing(op)
     case(15)
        call get_int(j)
        if(j.eq.0)then
           call h5open_f(err)
           call hdf5_auto_open(.false.)
        else
           call hdf5_auto_open(.true.)
        end if
     case(16)
        path = ' '
        call h5fget_name_f(hdf5_get_file_id(handle), path, nlen, err)
        write(11) path
     case(18)
        call get_str(name2)
        call rename(name, name2, j)
        write(11) j
     case(17)
        call get_int(j)
        HDF_VERBOSITY = j
        call get_int(j)
        HDF_ERROR_SUPPRESS = j
     end select
     write(11) 1000 + op
     flush(11)
  end do
  write(11) 77777
  close(11)
end program
"""


def build(where, build_type="Debug"):
    """Library and driver in directory where; path of the driver"""
    b = os.path.join(where, "build" + build_type)
    env = dict(os.environ, CC="/usr/bin/gcc", FC="/usr/bin/gfortran", FFLAGS="-fallow-argument-mismatch -w")
    env.pop("MAKEFLAGS", None)
    src = os.path.join(REPO, "fortran/hdf5_wrapper")
    log = open(os.path.join(where, "build.log"), "w+")

    def run(cmd, **kw):
        r = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, **kw)
        if r.returncode:
            log.seek(0)
            raise RuntimeError("build of the Fortran wrapper failed:\n" + log.read()[-3000:])
    run(["/usr/bin/cmake", "-Wno-dev", "-S", src, "-B", b, "-DCMAKE_BUILD_TYPE=" + build_type, "-DCMAKE_LIBRARY_PATH=/usr/lib/x86_64-linux-gnu/hdf5/serial"])
    run(["/usr/bin/cmake", "--build", b, "--target", "hdfwrapper", "-j8"])
    with open(os.path.join(where, "driver.f90"), "w") as f:
        f.write(driver_source())
    inc = "/usr/include/hdf5/serial"
    exe = os.path.join(b, "driver")
    lib = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
    run(["/usr/bin/gfortran", "-O0", "-g", "-w", "-fno-range-check", "-ffree-line-length-none", "-I" + os.path.join(b, "include"), "-I" + inc, "-J", b, "-o", exe, os.path.join(where, "driver.f90"),
         "-L" + os.path.join(b, "lib"), "-lhdfwrapper", "-Wl,-rpath," + os.path.join(b, "lib"), "-L" + lib, "-lhdf5_fortran", "-lhdf5"])
    return exe


def i4(*x):
    return struct.pack("<%di" % len(x), *x)


def st(s):
    b = s.encode() if isinstance(s, str) else s
    return i4(len(b)) + b


def opt(x):
    return i4(-1) if x is None else i4(len(x), *x)


class Script:
    """A sequence of calls. Arrays are numpy arrays with reversed dimensions (C order), strings have type S"""
    def __init__(self):
        self.b = []
        self.want = []          # how to decode the result of each call

    def op(self, code, slot, *parts, want=None):
        self.b.append(i4(code, slot) + b"".join(parts))
        self.want.append((code, want))

    def open(self, slot, name, readonly=None):
        self.op(1, slot, st(name), i4(-1 if readonly is None else int(readonly)))

    def create(self, slot, name):
        self.op(2, slot, st(name))

    def close(self, slot):
        self.op(3, slot)

    def group(self, slot, name):
        self.op(4, slot, st(name))

    def _data(self, code, slot, name, arr, stride=1, gzip=None, szip=None, overwrite=None, extensible=None, start=None, count=None, initial_size=None, chunk_size=None, fill=None):
        a = np.asarray(arr)
        t = "S" if a.dtype.kind == "S" else a.dtype.str[1:]
        slen = a.dtype.itemsize if t == "S" else 0
        raw = a
        if a.ndim and stride > 1:
            big = np.full(a.shape[:-1] + (a.shape[-1] * stride,), 0, dtype=a.dtype)
            big.view("u1" if a.dtype.kind != "S" else a.dtype)[...] = PATTERN if a.dtype.kind != "S" else b"Z" * slen
            big[..., ::stride] = a
            raw = big
        if t == "S":
            raw = b"".join(x.ljust(slen) for x in np.ravel(raw).tolist())
        else:
            raw = raw.tobytes()
        dims = a.shape[::-1]
        flag = lambda x: i4(-1 if x is None else int(x))
        self.op(code, slot, st(name), i4(TYPES[t][1], slen, stride, len(dims), *dims), flag(gzip), flag(szip), flag(overwrite), flag(extensible), opt(start), opt(count), opt(initial_size), opt(chunk_size), raw,
                want=(a.dtype, a.shape, stride))

    def write(self, slot, name, arr, **kw):
        self._data(5, slot, name, arr, **kw)

    def read(self, slot, name, arr, **kw):
        """arr: the contents of the array before the call"""
        self._data(6, slot, name, arr, **kw)

    def wattr(self, slot, name, arr, **kw):
        self._data(7, slot, name, arr, **kw)

    def rattr(self, slot, name, arr, **kw):
        self._data(8, slot, name, arr, **kw)

    def dims(self, slot, name):
        self.op(9, slot, st(name))

    def type(self, slot, name):
        self.op(10, slot, st(name))

    def listing(self, kind, slot, name):
        self.op(11 + ("datasets", "groups", "attributes").index(kind), slot, st(name))

    def auto_open(self, on):
        self.b.append(i4(15, int(on)))
        self.want.append((15, None))

    def path(self, slot):
        self.op(16, slot)

    def rename(self, a, b):
        self.op(18, 0, st(a), st(b))

    def verbosity(self, v, s):
        self.op(17, 0, st(""), i4(v, s))

    def run(self, exe, base, timeout=60):
        """Results of the calls which completed, return code, text of the output. File names are relative to the directory of base"""
        with open(base + ".script", "wb") as f:
            f.write(b"".join(self.b) + i4(0))
        env = dict(os.environ, HDF5_USE_FILE_LOCKING="FALSE", LC_ALL="C", GFORTRAN_UNBUFFERED_ALL="n")
        r = subprocess.run([exe, base + ".script", base + ".out"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=os.path.dirname(base), env=env, timeout=timeout)
        with open(base + ".out", "rb") as f:
            out = f.read()
        os.unlink(base + ".script")
        os.unlink(base + ".out")
        return self.decode(out), r.returncode, r.stdout.decode(errors="replace")

    def decode(self, out):
        pos = 0
        res = []

        def take(n):
            nonlocal pos
            if pos + n > len(out):
                raise EOFError
            pos += n
            return out[pos - n:pos]

        def num(n=1):
            return struct.unpack("<%di" % n, take(4 * n))
        try:
            for code, want in self.want:
                r = None
                if code in (1, 2, 18):
                    r, = num()
                elif code in (6, 8):
                    dt, shape, stride = want
                    if shape and stride > 1:
                        shape = shape[:-1] + (shape[-1] * stride,)
                    n = int(np.prod(shape)) if shape else 1
                    r = np.frombuffer(take(n * dt.itemsize), dtype=dt).reshape(shape) if dt.itemsize else np.zeros(shape, dtype=dt)
                elif code == 9:
                    rank, = num()
                    r = (rank, num(7))
                elif code == 10:
                    name = take(20).decode().rstrip()
                    r = (name, num()[0])
                elif code in (11, 12, 13):
                    n, m = num(2)
                    r = (n, m, [take(500).decode(errors="replace").rstrip() for i in range(n + 1)])
                elif code == 16:
                    r = take(1000).decode().rstrip()
                if num()[0] != 1000 + code:
                    raise RuntimeError("driver output is inconsistent")
                res.append(r)
        except EOFError:
            pass
        return res
