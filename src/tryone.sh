#!/bin/bash
# developer helper: build one check against /repo into /tmp
id=$1; shift
F="-std=c++17 -include cstring -D__error_t_defined=1 -I/repo/source/lib_common -fwrapv -fno-delete-null-pointer-checks -fno-strict-aliasing -O1 -g -w"
mkdir -p /tmp/o
for f in /repo/source/lib_*/*.cpp engine.cpp lang.cpp ref.cpp api.cpp $id.cpp; do
  o=/tmp/o/$(basename $f .cpp).o
  if [ ! -e $o -o $f -nt $o -o api.h -nt $o -o lang.h -nt $o -o ref.h -nt $o -o engine.h -nt $o ]; then echo $f $o; fi
done | xargs -r -P 8 -n 2 sh -c 'g++ '"$F"' -c $0 -o $1' || exit 1
L=$(for f in /repo/source/lib_*/*.cpp; do echo /tmp/o/$(basename $f .cpp).o; done)
g++ -o /tmp/o/$id /tmp/o/engine.o /tmp/o/lang.o /tmp/o/ref.o /tmp/o/api.o /tmp/o/$id.o $L || exit 1
/tmp/o/$id --replay-dir /tmp/o/replay --evidence /tmp/o/$id.json "$@"
