#!/bin/bash
# Maintainer tool (no check uses it): builds and runs the repository's complete CppUTest suites, which its own build
# cannot do without the mri submodule, against the shipped mri core.  usage: fulltests.sh [REPO] [OUTDIR]
R=${1:-/repo}; O=${2:-/tmp/fulltests}; V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p $O; cd $O || exit 2
INC="-I$V/mri/inc/include -I$R/include -I$V/mri/inc/mri/include -I$V/mri/inc/CrashCatcher/include -I$R/libCrashDebug/mocks -I$R/libCrashDebug/src -I$R/libcommon/src -I$R/libmocks/src -I$R/libCrashDebug/tests"
for f in $R/libCrashDebug/src/*.c $R/libcommon/src/*.c $R/libmocks/src/*.c $R/libCrashDebug/mocks/*.c; do gcc -std=gnu90 -g -w -include stdlib.h $INC -c $f -o c_$(basename $f .c).o || exit 2; done
for f in $R/libCrashDebug/tests/*.cpp $R/libcommon/tests/*.cpp $R/libmocks/tests/*.cpp $R/libCrashDebug/mocks/*.cpp; do case $f in */libcommon/tests/AllTests.cpp|*/libmocks/tests/AllTests.cpp) continue;; esac; echo $f; done | xargs -P8 -I{} sh -c "g++ -std=gnu++98 -g -w -fpermissive -include /usr/include/CppUTest/MemoryLeakDetectorNewMacros.h $INC -c {} -o t_\$(basename {} .cpp).o || echo FAIL {}"
gcc -c $V/build/opt/mri_tramp.S -o tramp.o
g++ -O1 -w -I$V/sim -c $V/sim/loader.cpp -o loader.o
cat > ctor.cpp <<'X'
#include "loader.h"
#include <cstdlib>
#include <string>
struct C { C() { loadMri(getenv("SIM_MRI_IMAGE")); } } c __attribute__((init_priority(101)));
X
g++ -w -I$V/sim -c ctor.cpp -o ctor.o
g++ -rdynamic -no-pie c_*.o t_*.o tramp.o loader.o ctor.o -o all_tests -lCppUTest -ldl 2>&1 | head -30
SIM_MRI_IMAGE=$V/mri/shipped/crashdebug-1.7-lin64.img timeout 100 ./all_tests
