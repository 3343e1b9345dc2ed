#!/bin/bash
# Builds all of verifypn from the current directory's sources in a scratch
# folder (ptrie and spot replaced by the stand-ins in kit.tgz) and compares its
# answers on the cases beside this script with the right ones.
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src" "$W/kit"
tar xzf "$D/kit.tgz" -C "$W/kit"
tar c --exclude=./_build --exclude=./.git --exclude=./test_models -C "$R" . | tar x -C "$W/src"
export CC=gcc CXX=g++ LC_ALL=C
cmake -S "$W/src" -B "$W/b" -G Ninja -DCMAKE_BUILD_TYPE=Verif "-DCMAKE_CXX_FLAGS_VERIF=-O1 -w" \
  -DVERIFYPN_Static=OFF -DVERIFYPN_MC_Simplification=OFF -DVERIFYPN_TEST=OFF -DVERIFYPN_GetDependencies=OFF \
  -DCMAKE_PROJECT_INCLUDE="$W/kit/cmake/deps.cmake" >"$W/log" 2>&1 && ninja -C "$W/b" >>"$W/log" 2>&1 || { tail -30 "$W/log"; exit 2; }
V="$W/b/verifypn/bin/verifypn-linux64"
bad=0
for c in "$D"/case*; do
  [ -d "$c" ] || continue
  mkdir "$W/run"; cp "$c"/* "$W/run"/
  ( cd "$W/run" && timeout 60 bash ./cmd "$V" >out 2>err ) ; rc=$?
  while IFS= read -r want; do
    [ -z "$want" ] && continue
    if ! cat "$W/run/out" "$W/run/err" | grep -Eq -- "$want"; then
      echo "$(basename "$c"): expected '$want' (exit status $rc), got:"; grep -E "FORMULA|STATE_SPACE" "$W/run/out" | head -5; tail -3 "$W/run/err"
      bad=1
    fi
  done < "$c/expect"
  rm -rf "$W/run"
done
exit $bad
