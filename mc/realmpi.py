"""Executed under mpirun: runs the driver program of a check on COMM_WORLD for a list of cases"""
import importlib
import os
import faulthandler
import pickle
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
inp, outp = sys.argv[1:3]


def main():
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rank = comm.Get_rank()
    module, specname, cases = pickle.load(open(inp, "rb"))
    m = importlib.import_module(module)
    spec = {s.name: s for s in m.SPECS}[specname]
    mods = {name: importlib.import_module(name) for name in spec.mods}
    out = open(outp, "wb") if rank == 0 else None
    limit = float(os.environ.get("VERIF_CASE_LIMIT", "45"))
    for case in cases:
        faulthandler.dump_traceback_later(limit, exit=True)    # a hang: says where, and ends the job
        n, args = spec.args(case)
        try:
            res = ("ok", spec.prog(rank, comm, mods, *args[rank]))
        except Exception as e:
            traceback.print_exc()
            res = ("exc", f"{type(e).__name__}: {e}")
        allres = comm.gather(res)
        if rank == 0:
            pickle.dump(allres, out)
            out.flush()
        if any(r[0] != "ok" for r in comm.bcast(allres)) and not getattr(spec, "allow_exc", False):
            break
    faulthandler.cancel_dump_traceback_later()
    if out:
        out.close()


if __name__ == "__main__":
    main()
