#!/bin/bash
# Runs with cwd = the repository, after its build. Exit 0: the property holds in the demonstration.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
objs=$(ls src/*.o | grep -v -e address_standardizer.o -e std_pg_hash.o)
g++ -w -g -O0 -std=c++11 -Isrc -o "$t/demo" "$here/demo.cpp" $objs LDEXTRA `pkg-config --libs --cflags icu-uc icu-io` -lboost_regex -lboost_serialization -ldl -lm -lpthread || exit 2
cd "$t" || exit 2
timeout 120 ./demo
rc=$?
echo "demo exit: $rc"
[ $rc = 0 ] && exit 0
exit 1
