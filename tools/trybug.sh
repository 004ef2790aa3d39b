#!/bin/bash
# trybug.sh ID [notest]: applies seeded/ID/patch.diff to /repo, runs the demonstration, the property's check
# (and the stable tests unless notest), then restores /repo. For development only.
here=$(cd "$(dirname "$0")/.." && pwd); d=$here/seeded/$1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
echo "--- demo with patch"; bash "$d/demo.sh" 2>&1 | tail -3; echo "demo rc=${PIPESTATUS[0]}"
if [ "$2" != nocheck ]; then echo "--- check $prop"; VERIF_SEED=1 bash "$here/check.sh" $prop quick 2>&1 | grep -v "^   " | cut -c1-400 | tail -8; fi
if [ "$2" != notest ] && [ "$2" != nocheck ]; then bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/t-$1.json >/dev/null 2>&1; python3 - $1 <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(f'/tmp/t-{sys.argv[1]}.json'))
def passed(x):
    for k in ('stable','passed','pass'):
        if k in x: 
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
    return set(k for k,v in x.get('tests',x).items() if v in ('pass','passed',True))
print('stable tests now failing:', sorted(passed(b)-passed(t))[:5])
P
fi
