#!/bin/bash
# Verifies planted bugs and runs checks against them, each in a private copy of /repo and /verif.
#   plant.sh verify SLOT ID      the patch counts (applies, builds, stable tests pass, demo 0 / non-0)
#   plant.sh check SLOT ID CFG.. the checks named (default: the property of meta.json) against it
#   plant.sh quiet SLOT PATCH C..  the checks named against a behaviour-preserving patch
mode=$1 slot=$2 id=$3
shift 3
base=/tmp/plant-$slot
mkdir -p "$base/verif"
[ -d "$base/repo" ] || cp -a /repo "$base/repo"
rsync -a --exclude .build --exclude evidence --exclude replays --exclude sim/target --exclude .git /verif/ "$base/verif/"
[ -d "$base/verif/.build" ] || cp -a /verif/.build "$base/verif/.build" 2>/dev/null
git -C "$base/repo" fetch -q /repo HEAD && git -C "$base/repo" reset -q --hard FETCH_HEAD && git -C "$base/repo" clean -fdq
export mode id base
exec unshare -m bash -c '
mount --make-rprivate / 2>/dev/null
mount --bind $base/repo /repo && mount --bind $base/verif /verif || exit 9
cd /repo
d=/verif/seeded/$id
case $mode in
verify)
  rm -rf /tmp/demo-$$; mkdir /tmp/demo-$$; cp -r $d/. /tmp/demo-$$/; rm -f /tmp/demo-$$/*.diff /tmp/demo-$$/meta.json
  bash /opt/vp/build.sh >/tmp/demo-$$.b 2>&1 || { echo "$id: build of clean tree failed"; exit 1; }
  ( cd /repo; timeout 300 bash /tmp/demo-$$/demo.sh ) >/tmp/demo-$$.1 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
  bash /opt/vp/build.sh >/tmp/demo-$$.b 2>&1 || { echo "$id: does not build"; tail -30 /tmp/demo-$$.b; exit 1; }
  t0=$(date +%s); ( cd /repo; timeout 300 bash /tmp/demo-$$/demo.sh ) >/tmp/demo-$$.2 2>&1; b=$?; t1=$(date +%s)
  bash /opt/vp/test.sh /tmp/demo-$$.json >/tmp/demo-$$.t 2>&1
  python3 - <<P
import json
base=json.load(open("/opt/vp/BASELINE.json"))["stable"]
r=json.load(open("/tmp/demo-$$.json"))
ok=set(r.get("passed",[])) if isinstance(r.get("passed"),list) else {k for k,v in r.items() if v in (True,"pass","passed")}
miss=[t for t in base if t not in ok]
print("$id: demo clean=$a patched=$b ($((t1-t0)) s); stable tests failing:",len(miss),miss[:5], "COUNTS" if not miss and $a==0 and $b!=0 else "DOES NOT COUNT")
P
  tail -3 /tmp/demo-$$.2
  rm -rf /tmp/demo-$$ /tmp/demo-$$.*
  ;;
check|quiet)
  if [ $mode = check ]; then p=$d/patch.diff; else p=$id; fi
  git apply $p || exit 1
  [ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open(\"$d/meta.json\"))[\"property\"])")
  for c in "$@"; do
    t0=$(date +%s)
    VERIF_SEED=${SEED:-1} python3 /verif/check.py $c ${TIER:-quick} >/tmp/chk-$$ 2>&1; r=$?
    echo "== $id $c exit $r ($(( $(date +%s) - t0 )) s)"
    tail -3 /tmp/chk-$$ | cut -c1-400
    f=$(grep -o "replay=.*" /tmp/chk-$$ | head -1 | cut -c8-)
    if [ -n "$f" ]; then cat "$f" | cut -c1-200 | head -${SHOW:-12}; python3 /verif/check.py replay "$f" | tail -1 | cut -c1-200; fi
  done
  rm -f /tmp/chk-$$
  ;;
esac
' x "$@"
