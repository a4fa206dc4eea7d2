#!/bin/bash
# verify.sh ID...: a planted bug builds, passes the tests, and its demonstration tells it from the unchanged tree.
for id in "$@"; do
  s=/verif/seeded/$id
  d=$(mktemp -d /tmp/plant.XXXXXX)
  cp -a /repo "$d/repo"; cp -a $s "$d/demo"; rm -f "$d/demo/patch.diff" "$d/demo/meta.json"
  for f in env.sh build.sh test.sh results.py; do sed "s#/opt/vp/\(build\|env\|test\|results\)#$d/vp/\1#g; s#/repo#$d/repo#g" /opt/vp/$f > /dev/null; done
  mkdir "$d/vp"; for f in env.sh build.sh test.sh results.py; do sed "s#/opt/vp/\(build\|env\|test\|results\)#$d/vp/\1#g; s#/repo\b#$d/repo#g" /opt/vp/$f > "$d/vp/$f"; done
  ( cd "$d/repo"; bash "$d/demo/demo.sh" > "$d/o1" 2>&1 ); clean=$?
  git -C "$d/repo" apply "$s/patch.diff" || { echo "$id: does not apply"; rm -rf "$d"; continue; }
  bash "$d/vp/build.sh" > "$d/o2" 2>&1; b=$?
  ( cd "$d/repo"; bash "$d/demo/demo.sh" > "$d/o3" 2>&1 ); planted=$?
  t=$(bash "$d/vp/test.sh" "$d/out.json" 2>&1 | tail -1)
  echo "$id: clean=$clean build=$b planted=$planted tests: $t $([ $clean = 0 -a $b = 0 -a $planted != 0 ] && [ "$t" = '134 passed, 0 failed' ] && echo OK || { echo BAD; tail -n 3 "$d/o1"; tail -n 3 "$d/o3"; })"
  rm -rf "$d"
done
