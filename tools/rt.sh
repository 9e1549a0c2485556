#!/bin/sh
# build + stable tests of /repo
bash /opt/vp/build.sh >/tmp/rt.build 2>&1 || { echo BUILD FAILED; tail /tmp/rt.build; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.out 2>&1
python3 -c "
import json
o=json.load(open('/tmp/rt.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']);m=[x for x in b['stable'] if x not in p]
print('stable',len(b['stable']),'missing',m)
import sys; sys.exit(bool(m))"
