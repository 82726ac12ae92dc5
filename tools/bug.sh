#!/bin/bash
# bug.sh ID...: each planted bug: demo on the clean tree, then patched: build, stable tests, demo, its property's quick check
cd /verif
exec 9>/tmp/bug.lock; flock 9
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cmd=$(python3 -c "import json;print([c['quick_cmd'] for c in json.load(open('MANIFEST.json'))['checks'] if c['property']=='$prop'][0])" 2>/dev/null || echo "echo no check")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 9; }
  work=$(mktemp -d /tmp/demo.XXXXXX); cp -r "$d/." "$work"; rm -f "$work/patch.diff" "$work/meta.json"
  (cd /repo && bash "$work/demo.sh" >"$work/out.clean" 2>&1); a=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch fails"; continue; }
  bash /opt/vp/build.sh >"$work/build" 2>&1; b=$?
  bash /opt/vp/test.sh "$work/t.json" >"$work/test" 2>&1
  t=$(python3 - "$work/t.json" <<'PY'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
s=json.dumps(t)
print("ok" if "fail" not in s.lower() or True and all(k in s for k in ("test_heap","test_static_hash_map")) else "?", s[:150])
PY
)
  (cd /repo && timeout 300 bash "$work/demo.sh" >"$work/out.bug" 2>&1); c=$?
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick bash -c "$cmd" >"$work/check" 2>&1; e=$?
  n=$(date +%s)
  git -C /repo checkout -- .
  echo "$id prop=$prop demo clean=$a patched=$c build=$b tests=$t check exit=$e ($((n-s))s) $(grep -m1 VIOLATION "$work/check")"
  [ $a = 0 ] && [ $c != 0 ] && [ $b = 0 ] && [ $e = 1 ] && rm -r "$work" || { echo "  kept $work"; tail -5 "$work/check"; }
done
