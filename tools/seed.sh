#!/bin/bash
# tools/seed.sh ID...: confirm planted bugs in scratch copies of /repo: the patch applies, builds, passes the stable
# tests, fails its demonstration, and what the check of its property says.
export LC_ALL=C.UTF-8
one() {
  id=$1; src=/verif/seeded/$id; w=/tmp/seed.$id
  rm -rf "/tmp/seed.$id"; mkdir -p "$w"; cp -a /repo "$w/repo"; rm -rf "$w/repo/_build"
  prop=$(python3 -c "import json,sys;print(json.load(open('$src/meta.json'))['property'])")
  cp -r "$src" "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
  (cd "$w/repo" && bash "$w/demo/demo.sh" > "$w/demo.clean" 2>&1); clean=$?
  git -C "$w/repo" apply "$src/patch.diff" || { echo "$id: patch does not apply"; return; }
  (cd "$w/repo" && bash "$w/demo/demo.sh" > "$w/demo.bug" 2>&1); bug=$?
  tests=skipped
  if [ -z "$NOTEST" ]; then
    CC=gcc-9 CXX=g++-9 cmake -S /opt/vp/driver -B "$w/repo/_build" -G Ninja -DREPO="$w/repo" -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wall > "$w/cmake.log" 2>&1
    if ninja -C "$w/repo/_build" > "$w/build.log" 2>&1; then
      while read -r t; do mkdir -p "$w/run/$t"; (cd "$w/run/$t" && timeout 300 "$w/repo/_build/bin/$t" --logger=JUNIT,all,report.xml > output.txt 2>&1); done < "$w/repo/_build/tests.txt"
      python3 /opt/vp/results.py "$w/t.json" "junit:$w/run/*/report.xml" > /dev/null 2>&1
      tests=$(python3 -c "
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('$w/t.json'))['passed'])
print('pass' if not s else 'BROKEN '+str(sorted(s)))")
    else tests="BUILD FAILED"; fi
  fi
  (cd /verif && VC_REPO="$w/repo" VC_EVIDENCE="$w/evidence" VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check "$prop" > "$w/check.log" 2>&1); rc=$?
  echo "$id: demo clean=$clean bug=$bug tests=$tests check=$rc $(grep -m1 VIOLATION "$w/check.log")"
  [ -z "$KEEP" ] && rm -rf "/tmp/seed.$id"
}
for id in "$@"; do one "$id"; done
