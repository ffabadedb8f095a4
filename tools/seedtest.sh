#!/bin/bash
# seedtest.sh ID...: validates planted bugs in a scratch copy of /repo (builds, stable tests pass, demo discriminates).
# Development only; no check reads /verif/seeded.
for id in "$@"; do
  d=/verif/seeded/$id
  s=$(mktemp -d /tmp/seed-XXXXXX)
  cp -a /repo "$s/repo"
  cp -a "$d" "$s/demo"; rm -f "$s/demo"/*.diff "$s/demo/meta.json"
  ( cd "$s/repo" && . /opt/vp/env.sh
    git checkout -q -- . 
    bash "$s/demo/demo.sh" > "$s/base.log" 2>&1 && echo "$id demo-base ok" || { echo "$id demo-base FAILS"; tail -5 "$s/base.log"; }
    git apply "$d/patch.diff" || { echo "$id patch does not apply"; exit; }
    go1.24 build ./... || { echo "$id does not build"; exit; }
    bash "$s/demo/demo.sh" > "$s/bug.log" 2>&1 && echo "$id demo-bug PASSES (bad)" || echo "$id demo-bug fails (good): $(grep -m1 -E 'zz_demo|panic|FAIL' "$s/bug.log")"
    if [ -z "$NOTESTS" ]; then
      go1.24 test -json -vet=off -count=1 -p 1 -timeout 10m ./... > "$s/t.log" 2>/dev/null
      python3 /opt/vp/results.py "$s/out.json" "gojson:$s/t.log" >/dev/null
      python3 - "$s/out.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x,dict) and k in x:
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
    return set(x)
bad=names(b)-names(o)
print(sys.argv[2],"tests:", "ok" if not bad else "BROKEN %s"%sorted(bad)[:5])
P
    fi
  )
  rm -rf "$s"
done
