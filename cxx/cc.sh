#!/bin/bash
# cc.sh harness mode(sym|conc) out extra...
cd "$(dirname "$0")"
h=$1; m=$2; o=$3; shift 3
inc="-I. -I/repo/include -I/usr/include/python3.12"
if [ $m = sym ]; then inc="-I. -Ishim ${inc#-I. }"; L="-lz3"; else D="-DCONC"; L=""; fi
g++ -std=c++20 -O1 -g0 -w -fmax-errors=5 -D_GLIBCXX_ASSERTIONS $D $inc -Ishim_py harness/$h.cpp -o $o $L -lmpfr -lgmp "$@"
