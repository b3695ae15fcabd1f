#!/bin/bash
# cxx.sh REPO OUT SRC [extra flags...]: compile a harness against the working tree of REPO.
R=$1; O=$2; S=$3; shift 3
V=$(cd "$(dirname "$0")/.." && pwd)
exec g++ -std=c++17 -DBOOST_NO_CXX11_VARIADIC_TEMPLATES -DENABLE_MSF_TIMING -DBOOST_BIND_GLOBAL_PLACEHOLDERS \
  -I"$V/stubs" -I"${GEN:-$V/build/gen}" -I"$R/msf_core/include" -I"$R/msf_timing/include" -I"$R/msf_updates/include" \
  -I/usr/include/eigen3 -w ${OPT:--O1} "$S" "$R/msf_timing/src/Timer.cc" "$R/msf_core/src/lib/msf_tools.cc" \
  "$R/msf_core/src/lib/falsecolor.cc" -lglog -o "$O" "$@"
