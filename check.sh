#!/usr/bin/env bash
# check.sh PROPERTY quick|thorough: rebuild everything from /repo's working
# tree and run the property's check. Exit 0: held on everything explored;
# 1: a VIOLATION line was printed; 2: no answer (build failure, harness error).
set -uo pipefail
cd "$(dirname "$0")"
prop=$1 tier=${2:-quick}
export VERIF_ROOT=$PWD
kind=plain bin=.build/harness extra=()
if [ "$prop" = G10 ]; then kind=race bin=.build/harness-race extra=(-race); fi
log=$(mktemp)
if ! bash ./build.sh "$kind" >"$log" 2>&1; then
  tail -40 "$log" >&2; rm -f "$log"; echo "build failed" >&2; exit 2
fi
rm -f "$log"
grep -h "^known: property=$prop " known_findings.txt 2>/dev/null | sed 's/^known:/KNOWN-FINDING:/' || true
"$bin" check -prop "$prop" -tier "$tier" "${extra[@]}"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then exit 2; fi
exit $rc
