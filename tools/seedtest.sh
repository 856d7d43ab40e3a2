#!/bin/bash
# seedtest.sh ID...: confirm planted changes in a scratch copy of /repo: builds, passes the stable tests, demo fails with it and passes without it.
V=$(cd "$(dirname "$0")/.." && pwd)
W=/tmp/seedw
if [ ! -d $W ]; then cp -a /repo $W; rm -rf /tmp/seedw/_build; fi
cd $W && git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD
b() { cmake -S $W -B $W/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_COMPILER=g++ -DCMAKE_C_COMPILER=gcc >/tmp/seedb.log 2>&1 && ninja -C $W/_build -j8 >>/tmp/seedb.log 2>&1; }
for id in "$@"; do
  git checkout -qf FETCH_HEAD
  git apply --check $V/seeded/$id/patch.diff || { echo "$id: DOES NOT APPLY"; continue; }
  b || { echo "base build failed"; exit 1; }
  rm -rf /tmp/seedd; cp -r $V/seeded/$id /tmp/seedd; rm -f /tmp/seedd/patch.diff /tmp/seedd/meta.json
  (bash /tmp/seedd/demo.sh >/tmp/seedo0 2>&1); r0=$?
  git apply $V/seeded/$id/patch.diff
  b || { echo "$id: BUILD FAILED"; tail -5 /tmp/seedb.log; git checkout -qf FETCH_HEAD; continue; }
  (bash /tmp/seedd/demo.sh >/tmp/seedo1 2>&1); r1=$?
  t=0; f=""
  for x in $W/_build/tests/test_*; do if [ -x $x ] && [ -f $x ]; then (cd $W/_build/tests && timeout 60 $x >/dev/null 2>&1) || f="$f $(basename $x)"; t=$((t+1)); fi; done
  git checkout -qf FETCH_HEAD
  echo "$id: demo base=$r0 patched=$r1 ($(tail -1 /tmp/seedo1 | cut -c1-100)); tests run=$t failing:[$f]"
done
