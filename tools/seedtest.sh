#!/bin/bash
# usage: seedtest.sh ID... : demo passes unpatched and fails patched, stable tests pass patched, and does the property's check catch it?
# NOTEST=1 skips the tests, NOCHECK=1 the check.
for id in "$@"; do
  s=/verif/seeded/$id
  T=$(mktemp -d /tmp/seed_XXXXXX); cp -a /repo/. "$T/"
  D=$(mktemp -d /tmp/seedd_XXXXXX); cp -r "$s"/* "$D/"; rm -f "$D"/patch.diff "$D"/meta.json
  (cd "$T" && bash "$D/demo.sh" >"$T.log" 2>&1); a=$?
  [ $a = 0 ] || tail -5 "$T.log"
  git -C "$T" apply "$s/patch.diff" || echo "patch fails"
  (cd "$T" && bash "$D/demo.sh" >"$T.log" 2>&1); b=$?
  tail -1 "$T.log" | cut -c1-200
  t=skipped
  if [ -z "$NOTEST" ]; then
    sed "s#/repo#$T#g" /opt/vp/test.sh > "$T.sh"; bash "$T.sh" "$T.json" >/dev/null 2>&1
    t=$(python3 - "$T.json" <<'P'
import json,sys
d=json.load(open(sys.argv[1])); s=json.load(open("/opt/vp/BASELINE.json"))["stable"]
r=d.get("results",d)
p=set(d.get("passed",[])) if "passed" in d else {k for k,v in r.items() if v in("passed","pass",True)}
m=[x for x in s if x not in p]
print("pass" if not m else "FAIL "+str(m)[:150])
P
)
  fi
  c=skipped
  if [ -z "$NOCHECK" ]; then
    p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
    (cd /verif; VERIF_SEED=1 VERIF_REPO="$T" ./check "$p" >"$T.log" 2>&1); c="rc=$?"; v=$(grep -m1 '^VIOLATION' "$T.log"); w=$(grep -m1 -A1 '^VIOLATION' "$T.log" | tail -1 | cut -c1-160)
    c="$p $c ${v:+caught}  $w"
  fi
  echo "SEED $id demo=$a/$b tests=$t check: $c"
  rm -rf "$T" "$T.log" "$T.sh" "$T.json" "$D"
done
