#!/bin/bash
# Line coverage of /repo's sources by the checks (development aid): coverage.sh OUTDIR Pxx...
# Shows which code no explored execution reaches.
set -e; rm -f "$1"/o/*.gcda
out=$1; shift; mkdir -p "$out/o"; cd "$out"
F="-std=c++17 -O2 -g0 -UNDEBUG -w --coverage"
mkdir -p gen; (cd gen; flex -o scan_fort.cc --header-file=scan_fort.hh /repo/src/flpr/scan_fort.l)
I="-I/repo/src -I/repo/src/flpr -I$out/gen -I/repo/apps -I/verif/harness"
for s in /repo/src/flpr/*.cc gen/scan_fort.cc /repo/apps/flpr_format_base.cc /repo/apps/module_base.cc; do
  echo "g++ $F $I -c $s -o o/$(basename $s .cc).o"; done | xargs -P8 -I{} sh -c '{}'
for p in "$@"; do echo "g++ ${F} $I -c /verif/harness/$p.cc -o o/$p.o && g++ --coverage -Wl,-u,__gcov_dump o/$p.o \$(ls o/*.o | grep -v '/P[0-9]') -o $p.exe"; done | xargs -P8 -I{} sh -c '{}'
for p in "$@"; do echo $p; MALLOC_PERTURB_=165 timeout 1500 ./$p.exe --tier quick --known /verif/known_findings.txt --workers 8 | tail -1; done
