#!/bin/bash
# trybug.sh <seeded id> [check ids...]: confirm that a planted change compiles, passes the stable tests, fails its
# demonstration, and see which checks report it. Leaves /repo as it was.
id=$1; shift
d=/verif/seeded/$id
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cleanup() { git -C /repo checkout -q -- . ; }
trap cleanup EXIT
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 9; }
tmpd=$(mktemp -d); cp $d/* $tmpd/; rm -f $tmpd/patch.diff $tmpd/meta.json
(cd /repo && timeout 300 bash $tmpd/demo.sh >/tmp/demo0.out 2>&1); echo "demo unpatched: $?"
git -C /repo apply $d/patch.diff || exit 8
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.out; exit 7; }
bash /opt/vp/test.sh /tmp/test.json >/tmp/test.out 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/test.json'))
def passed(x):
    if "passed" not in x: x={"passed":x["stable"]}
    for k in ('passed','pass','stable','tests'):
        if k in x: 
            v=x[k]; return set(v) if isinstance(v,list) else {a for a,s in v.items() if s in ('pass','passed','ok',True)}
bp,tp=passed(b),passed(t)
print("stable tests failing:", sorted(bp-tp)[:5], len(bp-tp), "of", len(bp))
P
fi
(cd /repo && timeout 300 bash $tmpd/demo.sh >/tmp/demo1.out 2>&1); echo "demo patched: $? $(tail -1 /tmp/demo1.out | cut -c1-150)"
for c in "$@"; do timeout 900 /verif/check $c quick >/tmp/chk_$c.out 2>&1; echo "check $c: exit $? $(grep -v VIOLATION /tmp/chk_$c.out | tail -2 | tr '\n' ' ' | cut -c1-220)"; done
/bin/rm -rf "$tmpd"
