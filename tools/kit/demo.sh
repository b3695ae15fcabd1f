#!/bin/bash
# Builds the demonstration against the sources in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
tar xzf "$D/kit.tgz" -C "$W" || exit 2
cp "$D/demo.cc" "$W/"
python3 "$W/gen_cfg.py" "$R" "$W/gen" > /dev/null || exit 2
SRC="$R/msf_timing/src/Timer.cc $R/msf_core/src/lib/msf_tools.cc $R/msf_core/src/lib/falsecolor.cc"
FLAGS=$(sed -n 's,^// flags: ,,p' "$D/demo.cc")
case "$FLAGS" in *-DAPP*) SRC="$SRC $R/msf_core/src/lib/gps_conversion.cc $R/msf_updates/src/msf_distort/PoseDistorter.cc";; esac
g++ -std=c++17 -O0 -w -fno-access-control -DBOOST_NO_CXX11_VARIADIC_TEMPLATES -DBOOST_BIND_GLOBAL_PLACEHOLDERS $FLAGS \
  -I"$W" -I"$W/stubs" -I"$W/gen" -I"$R/msf_core/include" -I"$R/msf_timing/include" -I"$R/msf_updates/include" -I"$R/msf_updates/src" \
  -I/usr/include/eigen3 "$W/demo.cc" $SRC -lglog -o "$W/demo" > "$W/log" 2>&1 || { grep -m5 error "$W/log" | cut -c1-300; echo "the demonstration does not compile"; exit 3; }
timeout 60 "$W/demo" > "$W/out" 2>/dev/null
rc=$?
grep FAILED "$W/out"
exit $rc
