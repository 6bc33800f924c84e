#!/bin/bash
# Runs with cwd = the repository, after its build. Exit 0: the property holds in the demonstration.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
inc=$(pg_config --includedir-server)
gcc -w -g -O0 -I"$inc" -I"$here" -c "$here/pgstub.c" -o "$t/pgstub.o" || exit 2
gcc -w -g -O0 -I"$here" -c "$here/mini.c" -o "$t/mini.o" || exit 2
gcc -w -g -O0 -I"$here" -Isrc -c "$here/demo.c" -o "$t/demo.o" || exit 2
g++ -o "$t/demo" "$t"/*.o src/*.o LDEXTRA `pkg-config --libs icu-uc icu-io` -lboost_regex -lboost_serialization -ldl -lm || exit 2
timeout 120 "$t/demo"
rc=$?
echo "demo exit: $rc"
[ $rc = 0 ] && exit 0
exit 1
