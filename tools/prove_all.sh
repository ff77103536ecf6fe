#!/bin/bash
# proof-only run of the given properties, six at a time (development aid)
cd "$(dirname "$0")/.."
one() {
  ( time PYTHONHASHSEED=0 timeout 1700 python3-vt -m engine.harness $1 "" ) > /tmp/prove-$1.log 2>&1
  echo "== $1 $(grep -c ' ok ' /tmp/prove-$1.log) ok $(grep real /tmp/prove-$1.log)"
  grep -v " ok " /tmp/prove-$1.log | grep -v "^$\|user\|sys\|real" | cut -c1-300
}
export -f one
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {}'
