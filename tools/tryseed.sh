#!/bin/bash
# tryseed.sh ID [config [tests]]: builds a scratch copy of /repo in /tmp/sd with and without the seeded change, runs its demonstration on both and, on request, the tests of that configuration with the change.
id=$1 cfg=${2:-ref} tests=$3; S=${SEEDS:-/tmp/w/seeded}/$id; export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1; . /opt/vp/env.sh
[ -d /tmp/sd ] || git -C /repo worktree add -q --detach /tmp/sd HEAD
git -C /tmp/sd checkout -q -f --detach "${REV:-$(git -C /repo rev-parse HEAD)}"
declare -A F=([ref]="" [v4sse]="" [v8avx2]="-mavx2 -mfma" [v8omp]="" [v16portable]=""); declare -A O=([ref]="" [v4sse]="-DUSE_V4_SSE=ON -DUSE_LEGACY_SORT=ON" [v8avx2]="-DUSE_V4_AVX2=ON -DUSE_V8_AVX2=ON" [v8omp]="-DUSE_V4_PORTABLE=ON -DUSE_V8_PORTABLE=ON -DUSE_OPENMP=ON -DUSE_PTHREADS=OFF" [v16portable]="-DUSE_V4_PORTABLE=ON -DUSE_V8_PORTABLE=ON -DUSE_V16_PORTABLE=ON")
build() { [ -f /tmp/sd/_build/$cfg/build.ninja ] || cmake -S /tmp/sd -B /tmp/sd/_build/$cfg -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Release -DCMAKE_POLICY_VERSION_MINIMUM=3.5 "-DCMAKE_CXX_FLAGS=-DCATCH_CONFIG_NO_POSIX_SIGNALS -fno-strict-aliasing ${F[$cfg]}" -DPYTHON_EXECUTABLE=/usr/bin/python3 -DENABLE_INTEGRATED_TESTS=ON -DENABLE_UNIT_TESTS=ON -DENABLE_LONG_TESTS=ON ${O[$cfg]} > /tmp/sd.cmake.log 2>&1; ninja -C /tmp/sd/_build/$cfg -j8 $1 > /tmp/sd.ninja.log 2>&1 || { tail -20 /tmp/sd.ninja.log; echo BUILD FAILED; exit 1; }; }
d=$(mktemp -d /tmp/demo.XXXXXX); cp $S/* $d/ 2>/dev/null; rm -f $d/patch.diff $d/meta.json
build vpic; (cd /tmp/sd && timeout 300 bash $d/demo.sh > /tmp/sd.clean.log 2>&1); c=$?
git -C /tmp/sd apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
build vpic; (cd /tmp/sd && timeout 300 bash $d/demo.sh > /tmp/sd.bad.log 2>&1); b=$?
echo "$id: clean $c, patched $b"; [ $c = 0 ] || tail -5 /tmp/sd.clean.log; tail -3 /tmp/sd.bad.log
[ -n "$tests" ] && { build; (cd /tmp/sd/_build/$cfg && ctest -j6 -E "heating|Heating|^uncenter" 2>&1 | tail -8); }
git -C /tmp/sd checkout -q -- .; rm -rf "$d"
