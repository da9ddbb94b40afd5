#!/bin/bash
# tools/plant.sh ID [check|nocheck|quick|demo] [CHECK-ID...]: confirm a planted bug in a scratch copy of /repo, and run the check of its property against it.
cd "$(dirname "$0")/.." || exit 2
id=$1; mode=${2:-check}; shift 2
d=$PWD/seeded/$id
w=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"
mkdir "$w/demo"; cp -a "$d"/. "$w/demo"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/demo.clean" 2>&1); rc=$?
[ $rc = 0 ] || { echo "$id: demo fails on the unchanged tree ($rc)"; tail -5 "$w/demo.clean"; exit 1; }
git -C "$w/repo" apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh" >"$w/demo.bad" 2>&1); rc=$?
[ $rc != 0 ] || { echo "$id: demo passes with the change"; exit 1; }
echo "$id demo with the change: $(tail -1 "$w/demo.bad" | cut -c1-200)"
if [ "$mode" != quick ] && [ "$mode" != demo ]; then
    sed "s#cd /repo#cd $w/repo#" /opt/vp/test.sh >"$w/test.sh"
    (export PYTHONPATH="$w/repo"; bash "$w/test.sh" "$w/out.json" >"$w/test.log" 2>&1)
    echo "$id tests: $(tail -1 "$w/test.log")"
    grep -h "^FAILED" "$w/test.log" | head -4
fi
if [ "$mode" != nocheck ] && [ "$mode" != demo ]; then
    prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
    for c in ${@:-$prop}; do
        VERIF_REPO="$w/repo" timeout 900 ./check "$c" --no-evidence >"$w/check.log" 2>&1; rc=$?
        echo "$id check $c: exit $rc"; sed -n '3,5p' "$w/check.log" | cut -c1-300
    done
fi
