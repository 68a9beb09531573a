# sourced by demo.sh: builds demo.cpp (a Python extension module "demo") against /repo's sources and its
# built library into a scratch directory $T, and defines run NP FILE.py
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
V=/opt/ngs/6.2.2405; L=$V/lib/python3.12/site-packages/netgen_mesher.libs
export PATH=$V/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=$T
LIB=$(find /repo/_build/install /repo/_build -name 'NgsAMG*.so' | head -1)
MOD=demo; [ -f "$HERE/ngsv.cpp" ] && MOD=ngsv
if [ -f "$HERE/$MOD.cpp" ]; then
  INC=""; for d in base base/utils base/distributed base/mesh base/coarsening base/factory base/smoothers base/solve base/precond base/ngs_extension base/linalg base/python h1 elasticity stokes/common stokes/ncfes stokes/hdiv; do INC="$INC -I/repo/src/$d"; done
  for d in include include/netgen include/netgen/include; do INC="$INC -isystem $V/$d"; done
  DEF="-DHAVE_CXA_DEMANGLE -DHAVE_DLFCN_H -DHAVE_NETGEN_SOURCES -DLAPACK -DNETGEN_PYTHON -DNGS_PYTHON -DNG_MPI_WRAPPER -DNG_PYTHON -DPARALLEL -DPYBIND11_SIMPLE_GIL_MANAGEMENT -DTCL -DUSE_PARDISO -DUSE_TIMEOFDAY -D_GLIBCXX_USE_CXX11_ABI=1 -DMIS_AGG -DSPW_AGG -DELASTICITY -DSTOKES_AMG -DNGS_COMPATIBILITY -DMAX_SYS_DIM=3"
  LIBS="$LIB"; for l in $L/libngsolve*.so* $L/libngcomp*.so* $L/libngfem*.so* $L/libngla*.so* $L/libngbla*.so* $L/libngstd*.so* $L/libnglib*.so* $L/libngcore*.so*; do LIBS="$LIBS $l"; done
  CC="g++ -O0 -DNDEBUG -w -fPIC -march=core-avx2 -fabi-version=17 -std=c++17 $DEF -I$HERE $INC -isystem /usr/include/python3.12"
  O=""; for f in "$HERE"/*.cpp; do o=$T/$(basename $f .cpp).o; O="$O $o"; $CC -c "$f" -o $o & done; wait
  g++ -shared -o $T/$MOD.so $O $LIBS -Wl,-rpath,$(dirname $LIB) -Wl,-rpath,$L -L$V/lib || { echo "demo does not compile"; exit 2; }
fi
if [ -f "$HERE/mesh/mesh.cpp" ]; then
  $CC -shared -o $T/ngsv_mesh.so "$HERE/mesh/mesh.cpp" $LIBS -Wl,-rpath,$(dirname $LIB) -Wl,-rpath,$L -L$V/lib || { echo "demo does not compile"; exit 2; }
fi
run () {
  NPROC=$1; F=$2
  cat > $T/main.py <<EOP
import sys; sys.path[:0] = ["$T", "/repo/_build/install", "$(dirname $LIB)", "$HERE"]
from mpi4py import MPI
from pyngcore import InitMPI
InitMPI()
import ngsolve, NgsAMG
exec(open("$HERE/$F").read())
MPI.COMM_WORLD.Barrier()
EOP
  cd $T
  E="env -i HOME=$T LANG=C.UTF-8 PATH=$PATH NGS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_plm=isolated OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1"
  if [ $NPROC -gt 1 ]; then timeout ${LIMIT:-100} $E mpirun -np $NPROC $V/bin/python $T/main.py < /dev/null
  else timeout ${LIMIT:-100} $E $V/bin/python $T/main.py < /dev/null; fi
}
