#!/bin/bash
# mutant.sh PATCH|revert:COMMIT CHECK... : run quick checks against a scratch
# copy of /repo with a patch applied or a commit taken back.
p=$1; shift
d=$(mktemp -d /tmp/mutant.XXXXXX)
cp -a /repo "$d/repo"
cd "$d/repo" || exit 2
case $p in
  revert:*) git revert -n "${p#revert:}" >/dev/null || { echo "cannot revert"; exit 2; } ;;
  *) git apply "$p" || { echo "cannot apply"; exit 2; } ;;
esac
for c in "$@"; do
  out=$(VERIF_REPO="$d/repo" timeout 900 python3-vt /verif/run.py "$c" quick --no-evidence 2>&1); rc=$?
  echo "$c rc=$rc $(echo "$out" | grep -c '^VIOLATION') violation(s): $(echo "$out" | grep -E '^(VIOLATION|UNREP|NO ANSWER)|rror' | head -2 | cut -c1-300)"
done
rm -rf "$d"
