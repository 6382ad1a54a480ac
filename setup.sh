#!/bin/bash
# nothing has to be built in advance: every check builds what it needs from /repo. Verify that the tools are there.
cd "$(dirname "$0")" || exit 3
. ./env.sh
"$PY" -c "import numpy, h5py, mpi4py" || exit 1
exit 0
