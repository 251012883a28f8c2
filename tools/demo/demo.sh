#!/bin/bash
# Runs a decode script against the built library and compares with what the property demands.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
gcc -O1 -g -w ${SAN:--fsanitize=address} -o "$T/demo" "$D/demo.c" -I "$R/_build/libipt/include" -L "$R/_build/lib" -lipt -Wl,-rpath,"$R/_build/lib" || exit 2
timeout 60 "$T/demo" < "$D/script" > "$T/out" 2> "$T/err"; rc=$?
if [ "$1" = "--show" ]; then cat "$T/out" "$T/err"; exit $rc; fi
[ $rc = 0 ] || { echo "demo exits with $rc"; tail -5 "$T/err"; exit 1; }
diff "$D/expected" "$T/out" || { echo "decode differs from what was executed"; exit 1; }
exit 0
