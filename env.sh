# environment of every check
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LC_ALL=C.UTF-8
unset PYTHONHOME
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated OMPI_MCA_mpi_yield_when_idle=1
export OMPI_MCA_hwloc_base_binding_policy=none
export HDF5_USE_FILE_LOCKING=FALSE
VERIF_DIR=$(pwd)
export VERIF_REPO=${VERIF_REPO:-/repo}   # another tree only while developing the checks
export PYTHONPATH=$VERIF_REPO/python:$VERIF_DIR
PY=/opt/venv/bin/python
