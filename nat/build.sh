#!/bin/bash
# build the library sources of $1 (repo) with sanitizers into $2, then the harnesses $3...
set -e
R=$1; W=$2; shift 2
H=$(cd "$(dirname "$0")" && pwd)
mkdir -p $W/obj
[ -f $W/cfg/include/strigi/strigiconfig.h ] || cmake -S $R -B $W/cfg -G Ninja -DCMAKE_BUILD_TYPE=Debug >$W/cmake.log 2>&1
F="-DHAVE_CONFIG_H -DMAKE_STREAMS_LIB -I$R/include -I$W/cfg/include -I$W/cfg/lib -I$R/lib -g1 -O1 -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment,shift,pointer-overflow,nonnull-attribute,vptr -fno-sanitize-recover=all"
cd $W/obj
{ for f in $(python3 $H/../lvc/extract.py --sources $R) $H/nat.cpp; do case $f in *.c) cc=clang-18 ;; *) cc="clang++-18 -std=gnu++17" ;; esac; echo "$cc $F -c $f -o $(basename $f).o"; done
for h in "$@"; do echo "clang++-18 -std=gnu++17 $F -I$H -c $H/$h.cpp -o ../$h.o"; done; } | xargs -P 8 -I{} sh -c '{}' 
rm -f ../lib.a; ar qc ../lib.a *.o
for h in "$@"; do echo "clang++-18 -fsanitize=address,undefined -o ../$h ../$h.o ../lib.a -lz -lbz2 -llzma"; done | xargs -P 8 -I{} sh -c '{}'
