#!/bin/bash
# build.sh DIR [FLAVOUR]: builds the simulator and the rank program (with /repo's library sources) into DIR.
# FLAVOUR of the library: std (as the repository builds it), scalar (no AVX, -O2 -DNDEBUG), ub (undefined behaviour traps), gpu (the CUDA backend), rocm (the ROCm backend), oneapi (the oneAPI backend), oneapi24 (the same for a oneMKL before 2025.1)
set -u
D=$1; FL=${2:-std}; V=$(cd "$(dirname "$0")" && pwd); REPO=${HEFFTE_REPO:-/repo}
mkdir -p $D/cfg $D/o || exit 2
VER=$(sed -n 's/^ *project *( *"\{0,1\}Heffte"\{0,1\}.* VERSION *\([0-9]*\.[0-9]*\.[0-9]*\).*/\1/p' $REPO/CMakeLists.txt | head -1); VER=${VER:-2.4.1}
IFS=. read -r MA MI PA <<< "$VER"
sed -e "s/@Heffte_VERSION_MAJOR@/$MA/g; s/@Heffte_VERSION_MINOR@/$MI/g; s/@Heffte_VERSION_PATCH@/$PA/g; s/@Heffte_GIT_HASH@/sim/g" \
    -e 's/^#cmakedefine \(Heffte_ENABLE_\(AVX\|FFTW\|MKL\|TRACING\)\)\b/#define \1/' -e 's/^#cmakedefine .*//' $REPO/include/heffte_config.cmake.h > $D/cfg/heffte_config.h
CXX=${CXX:-g++}; OPT="-O1 -mavx -mfma"
DEV=; case $FL in gpu) DEV=CUDA;; rocm) DEV=ROCM;; oneapi*) DEV=ONEAPI;; esac
case $FL in gpu|rocm|oneapi*) G=$DEV; sed -i "s/^#define Heffte_ENABLE_MKL\b.*/#define Heffte_ENABLE_$G\n#define Heffte_ENABLE_GPU_AWARE_MPI/" $D/cfg/heffte_config.h;; scalar) OPT="-O2 -DNDEBUG"; sed -i '/Heffte_ENABLE_AVX/d' $D/cfg/heffte_config.h;; ub) OPT="-O1 -mavx -mfma -fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,null,alignment,bool,enum,float-cast-overflow,return,unreachable -fsanitize-undefined-trap-on-error";; esac
SIMF="-std=c++17 -O2 -g1 -w -I$V/sim/include -I/usr/include/mkl"
APPF="-std=c++17 $OPT -g1 -w -fPIC -fno-gnu-unique -I$D/cfg -I$V/sim/include -I$REPO/include -I/usr/include/mkl"
{
for s in gen gpu main mem mpi oracle sim; do echo "$CXX $SIMF -c $V/sim/$s.cpp -o $D/o/s_$s.o"; done
if [ "$DEV" ]; then # a backend for devices on the simulated device
  APPF="$APPF -DSIM_GPU -I$V/sim/gpu"; K="*cuda*.cu"; case $FL in rocm) APPF="$APPF -DSIM_ROCM"; K="*rocm*.cpp";; oneapi*) APPF="$APPF -DSIM_SYCL"; K="*oneapi*.cpp"; [ $FL = oneapi24 ] && APPF="$APPF -DINTEL_MKL_VERSION=20240200";; esac
  for s in app_main plan_capi plan_gpu; do echo "$CXX $APPF -c $V/app/$s.cpp -o $D/o/a_$s.o"; done
  for f in $REPO/src/$K; do n=$(basename $f | sed "s/\..*//"); echo "python3 $V/tools/mkcuda.py $f $D/$n.cpp && $CXX $APPF -I$REPO/src -c $D/$n.cpp -o $D/o/l_$n.o"; done
else
for r in 0 1; do for b in 0 1 2; do for i in 0 1; do echo "$CXX $APPF -DVR=$r -DVBK=$b -DVI64=$i -c $V/app/plan_tu.cpp -o $D/o/a_p$r$b$i.o"; done; done; done
for s in app_main plan_capi plan_fort plan_py; do echo "$CXX $APPF -c $V/app/$s.cpp -o $D/o/a_$s.o"; done
echo "$CXX -std=c++17 -O1 -g1 -w -fPIC $(python3-config --includes) -shared $V/app/pydrv.cpp -lpython3.12 -o $D/pydrv.so"
for b in stock fftw mkl; do # the Fortran modules and a program that drives them
  sed "s/@B@/$b/g" $V/app/fortran.f90.in > $D/f_$b.f90
  echo "gfortran -O1 -g1 -w -fPIC -J$D/o -c $REPO/fortran/generated/heffte_$b.f90 -o $D/o/a_fm$b.o && gfortran -O1 -g1 -w -fPIC -J$D/o -c $D/f_$b.f90 -o $D/o/a_fd$b.o"
  echo "$CXX $APPF -c $REPO/fortran/generated/heffte_${b}FORTRAN_wrap.cxx -o $D/o/a_fw$b.o"
done
fi
for f in $REPO/src/*.cpp; do n=$(basename $f .cpp); case $n in *cuda*|*rocm*|*oneapi*|*magma*|*gpu*) continue;; esac; echo "$CXX $APPF -c $f -o $D/o/l_$n.o"; done
} > $D/cmds
tr '\n' '\0' < $D/cmds | xargs -0 -P ${JOBS:-8} -I{} sh -c '{} 2>>'$D'/log || { echo FAILED: {} >> '$D'/log; exit 255; }' || { head -c 6000 $D/log; exit 2; }
[ "$DEV" ] || cp $V/app/drive.py $REPO/python/heffte.py $D/ || exit 2
$CXX -shared -Wl,-Bsymbolic -Wl,-z,muldefs -o $D/app.so $D/o/a_*.o $D/o/l_*.o -lgfortran -ldl 2>>$D/log || { head -c 6000 $D/log; exit 2; }
$CXX -o $D/sim $D/o/s_*.o -Wl,--dynamic-list=$V/sim/exports.list -Wl,--no-as-needed -lfftw3 -lfftw3f -lmkl_intel_lp64 -lmkl_sequential -lmkl_core -ldl -lpthread -lm 2>>$D/log || { head -c 6000 $D/log; exit 2; }
