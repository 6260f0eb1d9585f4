#!/bin/bash
# tools/seed.sh save ID      turns the uncommitted change in /repo into seeded/ID/patch.diff and undoes it
# tools/seed.sh test ID [checks...]  builds, tests and demonstrates the change, runs checks (default: its property), undoes it
set -u
d=/verif/seeded/$2
case $1 in
save)
    mkdir -p $d; git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .; wc -l $d/patch.diff;;
test)
    git -C /repo diff --quiet || { echo dirty; exit 2; }
    bash /opt/vp/build.sh >/tmp/seed.log 2>&1
    (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.demo0 2>&1); echo "demo unchanged: $?"
    git -C /repo apply $d/patch.diff || exit 2
    trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
    if [ -z "${NOTEST:-}" ]; then
    bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1 || { echo "build failed"; tail -5 /tmp/seed.log; }
    python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b['stable']
p=set(json.load(open('/tmp/seed.json'))['passed']); print('missing tests:', [t for t in b if t not in p][:5])"
    else bash /opt/vp/build.sh >/tmp/seed.log 2>&1; fi
    (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.demo1 2>&1); echo "demo changed: $?"; tail -2 /tmp/seed.demo1
    shift 2; [ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    [ -n "${NOCHECK:-}" ] && exit 0
    for c in "$@"; do
        (cd /verif && timeout 900 python3 lib/vplib.py $c quick >/tmp/seed.$c.log 2>&1; echo "check $c: $?"; grep VIOLATION /tmp/seed.$c.log | head -2)
    done;;
esac
