#!/bin/bash
# try.sh PATCH CHECK...: run checks against /repo with PATCH applied, then undo it. R=1 reverses the patch.
P=$(readlink -f "$1"); shift
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply ${R:+-R} "$P" || { echo "does not apply"; exit 2; }
for c in "$@"; do
  o=$(timeout 900 ./check.sh $c 2>&1); rc=$?
  echo "$c rc=$rc $(grep -a VIOLATION <<<"$o" | head -1) $( [ $rc -gt 1 ] && tail -3 <<<"$o")"
done
