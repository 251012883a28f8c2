#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
gcc -O1 -g -w -o "$T/demo" "$D/demo.c" -I "$D" -I "$R/_build/libipt/include" -I "$R/_build/sideband/include" -I "$R/pevent/include" -L "$R/_build/lib" -lipt-sb -lipt -Wl,-rpath,"$R/_build/lib" || exit 2
timeout 60 "$T/demo" "$T"
