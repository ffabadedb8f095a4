#!/bin/bash
# catch.sh SEED [CHECK]: runs the property's quick check against a scratch copy with the planted bug (development only).
for id in "$@"; do
  c=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(mktemp -d /tmp/catch-XXXXXX); cp -a /repo "$s/repo"; cp -a /verif "$s/verif"; rm -rf "$s/verif/evidence"
  git -C "$s/repo" checkout -q -- . ; git -C "$s/repo" apply "/verif/seeded/$id/patch.diff" || continue
  t0=$(date +%s)
  out=$(GOSYM_REPO=$s/repo GOSYM_VERIF=$s/verif /verif/bin/gosym check -id "$c" -tier quick 2>&1); rc=$?
  echo "$id $c rc=$rc $(( $(date +%s) - t0 ))s: $(echo "$out" | grep -A1 -m1 VIOLATION | tr '\n' ' ')"
  [ $rc = 1 ] || echo "$out" | tail -8
  rm -rf "$s"
done
