#!/usr/bin/env bash
# inside a private mount namespace: /repo and /verif are scratch copies
# usage: inner.sh ID...   (env: SKIPTEST=1, SKIPCHECK=1)
mount --bind /tmp/sc/repo /repo; mount --bind /tmp/sc/verif /verif; mkdir -p /tmp/sc/logs; mount --bind /tmp/sc/logs /opt/vp/rs/logs
export VERIF_SEED=1 VERIF_TIER=quick
for id in "$@"; do
  s=/verif/seeded/$id; cd /repo; git checkout -q -- .
  line="$id"
  if [ -z "$SKIPDEMO" ]; then bash $s/demo.sh >/tmp/sc/demo0.log 2>&1; line="$line clean-demo=$?"; fi
  git apply $s/patch.diff || { echo "$id patch does not apply"; continue; }
  if [ -z "$SKIPTEST" ]; then
    bash /opt/vp/build.sh >/tmp/sc/build.log 2>&1 || { echo "$line BUILD FAILED"; grep -A6 "^error" /tmp/sc/build.log | head -20; git checkout -q -- .; continue; }
    bash /opt/vp/test.sh /tmp/sc/out.json >/tmp/sc/test.log 2>&1
    line="$line tests-lost=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/sc/out.json'))['passed']); print(len(b-o),list(b-o)[:3])")"
  fi
  if [ -z "$SKIPDEMO" ]; then bash $s/demo.sh >/tmp/sc/demo1.log 2>&1; line="$line bug-demo=$?"; fi
  if [ -z "$SKIPCHECK" ]; then
    p=${PROP:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
    cmd=$(python3 -c "
import json
print([c['quick_cmd'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$p'][0])")
    cd /verif; timeout 900 bash -c "$cmd" >/tmp/sc/check.log 2>&1; rc=$?
    line="$line $p=$rc $(grep -A1 VIOLATION /tmp/sc/check.log | tail -1 | cut -c1-150)"
  fi
  cd /repo; git checkout -q -- .
  echo "$line"
done
