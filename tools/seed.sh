#!/bin/bash
# seed.sh ID [PROP...]: confirms a planted bug in a scratch copy of /repo: demo passes before / fails after, stable tests pass, and which checks see it
# (NOTESTS=1 skips the stable tests)
ID=$1; shift
S=/verif/seeded/$ID
W=/tmp/seedwork/$ID
rm -rf "/tmp/seedwork/$ID"; mkdir -p "$W"
cp -a /repo "$W/repo"
D=$W/demo; mkdir -p "$D"; cp -a "$S"/. "$D"; rm -f "$D"/*.diff "$D"/meta.json
export LANG=C.UTF-8 PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$W/repo
cd "$W/repo" || exit 2
timeout 300 bash "$D/demo.sh" >"$W/demo0.log" 2>&1; r0=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
timeout 300 bash "$D/demo.sh" >"$W/demo1.log" 2>&1; r1=$?
echo "$ID: demo clean=$r0 patched=$r1"
[ $r0 -ne 0 ] && tail -20 "$W/demo0.log"
[ -n "$SHOW" ] && tail -20 "$W/demo1.log"
if [ -z "$NOTESTS" ]; then
  sed -e "s#cd /repo#cd $W/repo#" -e "s#/opt/vp/logs#$W/logs#g" /opt/vp/test.sh > "$W/test.sh"
  bash "$W/test.sh" "$W/out.json" >/dev/null 2>&1
  echo "$ID: stable tests: $(/opt/venv/bin/python /verif/tools/cmp.py "$W/out.json")"
fi
unset PYTHONPATH
P=${*:-$(/opt/venv/bin/python -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for p in $P; do
  (cd /verif && VSIM_REPO=$W/repo VERIF_SEED=${VERIF_SEED:-1} timeout 900 /opt/venv/bin/python sim/check.py "$p" > "$W/check-$p.log" 2>&1; echo "$ID: check $p exit $?  $(grep -m1 VIOLATION "$W/check-$p.log" | cut -c1-200)")
done
rm -rf "/tmp/seedwork/$ID/repo"
