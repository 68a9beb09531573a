#!/bin/bash
# Builds NgsAMG from /repo's working tree (incrementally, in /verif/build/repo) and the harness
# module of /verif/harness (in /verif/build/harness). Offline; nothing outside /verif/build is written.
set -u
V=/opt/ngs/6.2.2405
D=${VERIF_DIR:-/verif}
R=${VERIF_REPO:-/repo}
B=$D/build/repo
H=$D/build/harness
mkdir -p $B $H $D/build/ccache
export PATH=$V/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root CC=/usr/bin/gcc CXX=/usr/bin/g++ PYTHONDONTWRITEBYTECODE=1
export CCACHE_DIR=$D/build/ccache CCACHE_NOSTATS=1 CCACHE_MAXSIZE=2G
[ -d /opt/ngs/ccache ] && export CCACHE_REMOTE_STORAGE="file:/opt/ngs/ccache|read-only"
unset PYTHONPATH
exec 9>$D/build/lock; flock 9
if [ ! -f $B/build.ninja ]; then
  rm -f $B/CMakeCache.txt
  cmake -S $R -B $B -G Ninja \
    -DCMAKE_BUILD_TYPE=Release "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG" \
    -DCMAKE_CXX_FLAGS=-Wno-deprecated-declarations \
    -DCMAKE_PREFIX_PATH=$V -DPython3_EXECUTABLE=$V/bin/python -DPython3_FIND_VIRTUALENV=ONLY \
    -DNGS_PYTHON_CONFIG=ON -DENABLE_ELASTICITY=ON -DENABLE_STOKES=ON -DENABLE_MIS_AGG=ON \
    -DENABLE_SPW_AGG=ON -DENABLE_ROBUST_ELASTICITY_COARSENING=OFF -DNGS_COMPATIBILITY=ON \
    -DENABLE_COMPILE_TIMING=OFF -DUSE_CCACHE=ON \
    -DCMAKE_INSTALL_PREFIX=$D/build/install || exit 1
fi
ninja -C $B -j "$(nproc)" > $D/build/build_repo.log 2>&1 || { cat $D/build/build_repo.log; echo "build of the repository failed"; exit 1; }

# ---- harness: a Python extension module, linked against the library built above ----
L=$V/lib/python3.12/site-packages/netgen_mesher.libs
INC=""
for d in base base/utils base/distributed base/mesh base/coarsening base/factory base/smoothers base/solve base/precond base/ngs_extension base/linalg base/python h1 elasticity stokes/common stokes/ncfes stokes/hdiv; do INC="$INC -I$R/src/$d"; done
for d in include include/netgen include/netgen/include; do INC="$INC -isystem $V/$d"; done
INC="$INC -isystem /usr/include/python3.12"
DEF="-DHAVE_CXA_DEMANGLE -DHAVE_DLFCN_H -DHAVE_NETGEN_SOURCES -DLAPACK -DNETGEN_PYTHON -DNGS_PYTHON -DNG_MPI_WRAPPER -DNG_PYTHON -DPARALLEL -DPYBIND11_SIMPLE_GIL_MANAGEMENT -DTCL -DUSE_PARDISO -DUSE_TIMEOFDAY -D_GLIBCXX_USE_CXX11_ABI=1 -DMIS_AGG -DSPW_AGG -DELASTICITY -DSTOKES_AMG -DNGS_COMPATIBILITY -DMAX_SYS_DIM=3"
CF="-O1 -DNDEBUG -Wno-deprecated-declarations -w -fPIC -march=core-avx2 -fabi-version=17 -std=c++17"
LIBS="$B/NgsAMG.so"
for l in $L/libngsolve*.so* $L/libngcomp*.so* $L/libngfem*.so* $L/libngla*.so* $L/libngbla*.so* $L/libngstd*.so* $L/libnglib*.so* $L/libngcore*.so*; do LIBS="$LIBS $l"; done
{
  echo "rule cxx"
  echo "  command = ccache g++ $CF $DEF $INC -I$D/harness -MD -MF \$out.d -c \$in -o \$out"
  echo "  depfile = \$out.d"
  echo "  deps = gcc"
  echo "rule link"
  echo "  command = g++ -shared -o \$out \$in $LIBS -Wl,-rpath,$B -Wl,-rpath,$L -Wl,-rpath,$V/lib -L$V/lib"
  O=""
  for f in $D/harness/*.cpp; do o=$(basename $f .cpp).o; echo "build $o: cxx $f"; O="$O $o"; done
  echo "rule thr"
  W="-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE,--wrap=_ZNSt18condition_variable10notify_oneEv,--wrap=_ZNSt18condition_variable10notify_allEv"
  echo "  command = g++ -shared -o \$out \$in $LIBS $W -Wl,-rpath,$B -Wl,-rpath,$L -Wl,-rpath,$V/lib -L$V/lib"
  echo "build handover.o: cxx $D/harness/thread/handover.cpp"
  echo "build ngsv_thread.so: thr handover.o | $B/NgsAMG.so"
  echo "build opts.o: cxx $D/harness/opts/opts.cpp"
  echo "build ngsv_opts.so: link opts.o | $B/NgsAMG.so"
  echo "build mesh.o: cxx $D/harness/mesh/mesh.cpp"
  echo "build ngsv_mesh.so: link mesh.o | $B/NgsAMG.so"
  echo "build ngsv.so: link $O | $B/NgsAMG.so"
} > $H/build.ninja.new
cmp -s $H/build.ninja.new $H/build.ninja || mv $H/build.ninja.new $H/build.ninja
rm -f $H/build.ninja.new
ninja -C $H -j "$(nproc)" ngsv.so > $D/build/build_harness.log 2>&1 || { cat $D/build/build_harness.log; echo "build of the harness failed"; exit 1; }

# the background thread on its own: a class of one source file, done without if that has become different
ninja -C $H -j "$(nproc)" ngsv_thread.so > $D/build/build_thread.log 2>&1 || rm -f $H/ngsv_thread.so

# the option sets: one module of its own because it names their fields
ninja -C $H -j "$(nproc)" ngsv_opts.so > $D/build/build_opts.log 2>&1 || rm -f $H/ngsv_opts.so

# meshes: a module of its own because it instantiates the coarsening and redistribution templates
ninja -C $H -j "$(nproc)" ngsv_mesh.so > $D/build/build_mesh.log 2>&1 || rm -f $H/ngsv_mesh.so

# ---- TLC operator overrides (floating-point vectors; see spec/Reals.tla) ----
T=$D/build/tla; mkdir -p $T
for j in $D/spec/java/*.java; do
  c=$T/$(basename $j .java).class
  if [ ! -f $c ] || [ $j -nt $c ]; then
    javac -nowarn -d $T -cp /opt/veriftools/tla/tla2tools.jar $j > $D/build/build_java.log 2>&1 || { cat $D/build/build_java.log; echo "build of the TLC overrides failed"; exit 1; }
  fi
done
