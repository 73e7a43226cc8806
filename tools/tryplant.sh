#!/bin/bash
# tools/tryplant.sh ID... : for every planted bug: does it apply, do the stable
# tests pass with it, does its demo tell the trees apart? Works on scratch copies
# under /tmp/plants; nothing in /repo changes. Also: tools/tryplant.sh -c ID
# additionally runs the check of the bug's property on the patched copy.
CHECK=
[ "$1" = -c ] && { CHECK=1; shift; }
one() {
    id=$1; d=/verif/seeded/$id; w=/tmp/plants/$id
    rm -rf "/tmp/plants/$id"; mkdir -p "$w"
    cp -a /repo "$w/repo"
    git -C "$w/repo" apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; return; }
    . /opt/vp/env.sh
    ( cd "$w/repo" && PYTHONPATH=$w/repo:/opt/vp/plugins timeout 900 /opt/venv/bin/python -m pytest tests -q --tb=short -p no:cacheprovider -p phenum_cwd \
        --timeout=180 --continue-on-collection-errors -o junit_family=xunit2 --junitxml="$w/pytest.xml" >"$w/pytest.log" 2>&1 )
    /usr/bin/python3 /opt/vp/results.py "$w/o.json" junit:"$w/pytest.xml" >/dev/null
    t=$(python3 - "$w/o.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
f=sorted(set(b)-set(o['passed'])); print("tests ok" if not f else "TESTS FAIL %d %s" % (len(f), f[:3]))
PY
)
    mkdir -p "$w/demo"; cp "$d"/* "$w/demo/"; rm -f "$w"/demo/*.diff "$w/demo/meta.json"
    ( cd "$w/repo" && git checkout -q -- . && timeout 300 bash "$w/demo/demo.sh" >"$w/demo.clean" 2>&1 ); c=$?
    ( cd "$w/repo" && git apply "$d/patch.diff" && timeout 300 bash "$w/demo/demo.sh" >"$w/demo.bug" 2>&1 ); b=$?
    echo "$id: $t; demo clean=$c patched=$b"
    if [ -n "$CHECK" ]; then
        p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
        PHSIM_REPO=$w/repo VERIF_SEED=1 /opt/venv/bin/python /verif/sim/check.py $p --tier quick --no-evidence >"$w/check.log" 2>&1
        echo "$id: $p exit $? $(grep -h '^VIOLATION\|^run' "$w/check.log" | head -2 | cut -c1-300)"
    fi
}
for id in "$@"; do
    if [ -n "$CHECK" ]; then one "$id" 2>&1; else one "$id" & fi
done
wait
rm -rf /tmp/plants
