#!/bin/bash
# Builds the repository's own tests that need the BetterThreads submodule against the stand-in and
# runs them: repo_tests.sh SRC OUTDIR
set -e
src=$1; out=$2; stub=$(cd "$(dirname "$0")"; pwd)/stub
mkdir -p "$out"
F="-std=c++17 -O1 -w -DENABLE_MLPACK=false -I$src/source -I$src/tests -I$stub"
(cd "$src/source"; ls dnn/*.cpp middleware/*.cpp parser/*.cpp) | xargs -P 8 -I{} sh -c "g++ $F -c $src/source/{} -o $out/\$(echo {} | tr / _).o"
(cd "$src/tests"; ls dnn/*.cpp middleware/*.cpp data/*.cpp) | xargs -P 8 -I{} sh -c "g++ $F $src/tests/{} $out/*.cpp.o -o $out/\$(basename {} .cpp) -pthread || true"
cd "$src/tests"
for t in "$out"/test_*; do if (cd "$out" && timeout 300 "$t" > "$t.log" 2>&1); then echo "PASS $(basename $t)"; else echo "FAIL $(basename $t) $(grep -ci 'error' $t.log)"; fi; done
