#!/bin/bash
# Confirms planted bugs (in a mount namespace, where a copy stands in for /repo), and runs their checks:
#   tools/seedcheck.sh ID... ; NOTEST=1 skips the tests, NODEMO=1 the demos, NOCHECK=1 the checks
V=$(dirname "$(dirname "$(realpath "$0")")")
one() {
    local id=$1 S=$V/seeded/$1 W; W=$(mktemp -d /tmp/sd.XXXXXX)
    mkdir $W/repo; cp -a /repo/. $W/repo/
    unshare -m bash -c '
        V=$1; S=$2; id=$3; W=$4
        mount --bind $W/repo /repo; cd /repo; mkdir $W/d; cp -r $S/. $W/d/; rm -f $W/d/*.diff $W/d/meta.json
        git checkout -q -- .
        P=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))[\"property\"])" $S/meta.json)
        if [ -z "$NODEMO" ]; then
            bash /opt/vp/build.sh >$W/b0 2>&1; bash $W/d/demo.sh >$W/o0 2>&1; r0=$?
        fi
        git apply $S/patch.diff || { echo "$id: APPLY FAILED"; exit 1; }
        if [ -z "$NODEMO" ]; then
            bash /opt/vp/build.sh >$W/b1 2>&1 || { echo "$id: BUILD FAILED"; tail -5 $W/b1; exit 1; }
            bash $W/d/demo.sh >$W/o1 2>&1; r1=$?
            echo "$id: demo clean=$r0 patched=$r1"; [ "$r0" = 0 ] && [ "$r1" != 0 ] || { echo "$id: DEMO BAD"; tail -n 5 $W/o0; tail -n 5 $W/o1; }
        fi
        if [ -z "$NOTEST" ]; then
            bash /opt/vp/test.sh $W/t.json >$W/to 2>&1
            python3 - $W/t.json "$id" <<PY
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); st=set(b.get("stable") or b.get("passed") or b)
p=set(json.load(open(sys.argv[1]))["passed"])
print(sys.argv[2]+": tests", "ok" if st<=p else "MISSING %s"%sorted(st-p)[:5], len(p))
PY
        fi
        if [ -z "$NOCHECK" ]; then
            cd $V; t=$SECONDS; VP_REPLAY=$W/replay python3 check.py $P ${TIER:-quick} >$W/c 2>&1; r=$?
            echo "$id: check $P exit $r in $((SECONDS-t)) s $(grep -m1 "counterexample in" $W/c)"
            [ $r = 1 ] || grep -v " pass " $W/c | tail -8
        fi
    ' x $V $S $id $W
    rm -rf $W
}
for i in "$@"; do one $i; done
