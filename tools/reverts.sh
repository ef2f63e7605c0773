#!/bin/bash
# For every fix commit in known_findings.json: does the property's check notice when it is reverted?
# Works on scratch copies under /tmp, which it removes.
set -u
python3 - <<'P' > /tmp/reverts.$$
import json
for l in json.load(open("/verif/known_findings.json"))["fixed"]:
    w=l.split(); print(w[2], w[1].split("=")[1])
P
while read -r h prop; do
  d=/tmp/revert.$$.$h
  mkdir "$d" && git -C /repo archive HEAD | tar x -C "$d"
  if git -C /repo show "$h" | (cd "$d" && patch -R -p1 -s >/dev/null 2>&1); then
    out=$(cd /verif && VERIF_REPO=$d bash check.sh "$prop" --no-evidence 2>&1 </dev/null); rc=$?
    echo "$h $prop rc=$rc $(echo "$out" | grep -v '^VIOL' | head -1 | cut -c1-90)"
  else
    echo "$h $prop: does not revert cleanly"
  fi
  rm -rf "$d"
done < /tmp/reverts.$$
rm -f /tmp/reverts.$$
