#!/bin/bash
# Run the stable tests with planted bugs applied together in a copy: tools/seedtest.sh ID...
W=/tmp/seedtest; rm -rf /tmp/seedtest; git clone -q /repo $W || exit 2
cp -a /repo/. $W/ 2>/dev/null
for i in "$@"; do git -C $W apply /verif/seeded/$i/patch.diff || exit 2; done
sed "s#/repo#$W#g" /opt/vp/test.sh > /tmp/seedtest.sh
bash /tmp/seedtest.sh /tmp/seedtest.json > /tmp/seedtest.log 2>&1
tail -1 /tmp/seedtest.log
python3 - <<'P'
import json
a=json.load(open('/opt/vp/BASELINE.json')); b=json.load(open('/tmp/seedtest.json'))
def passed(x):
    if isinstance(x,dict):
        for k in('passed','pass','stable','tests'):
            if k in x: return set(x[k] if not isinstance(x[k],dict) else [t for t,v in x[k].items() if v in('passed',True,'pass')])
    return set(x)
d=passed(a)-passed(b); print('missing',len(d)); print('\n'.join(sorted(d)[:20]))
P
rm -rf /tmp/seedtest
