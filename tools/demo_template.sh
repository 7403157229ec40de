#!/bin/bash
# compiles demo.cpp against /repo's sources and libraries and runs it on NP ranks
cd "$(dirname "$0")" || exit 2
NP=@NP@
REPO=/repo
B=$REPO/_build
D=$(mktemp -d /tmp/demoXXXXXX) || exit 2
trap 'cd /; rm -rf "$D"' EXIT
INC="-I$REPO/src -I/usr/include/superlu-dist -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi -I/usr/include/hdf5/openmpi -I/usr/include/eigen3 -I/usr/include/argparse -I/opt/vp/cmake/none -I/opt/vp/cmake/fmt/include"
L="@LIBS@ -lmpi_cxx -lmpi -lcgns /usr/lib/x86_64-linux-gnu/hdf5/openmpi/libhdf5.so /usr/lib/libparmetis.so -lmetis -lz -lfmt -lstdc++fs -ldl -lsuperlu_dist"
g++ -std=c++17 @OPT@ -fopenmp -w -DDNDS_USE_OMP -DNINSERT -D__DNDS_REALLY_COMPILING__ @DEFS@ $INC demo.cpp -o "$D/demo" $L -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/openmpi || exit 2
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
export OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_oob_tcp_if_include=lo OMP_NUM_THREADS=@OMPT@
cd "$D" || exit 2
timeout -k 5 60 mpirun -np $NP ./demo
