#!/bin/bash
# seed.sh ID : confirm a planted bug in a scratch copy: applies, builds, stable tests pass, demo passes without and fails with it
id=$1; S=/verif/seeded/$id; W=/tmp/seedw-$id
rm -rf "/tmp/seedw-$id"; cp -a /repo "$W"
run_demo() { (cd "$W" && timeout 300 bash "$S/demo.sh" >"/tmp/seedw-$id.demo" 2>&1); echo $?; }
a=$(run_demo)
(cd "$W" && git apply "$S/patch.diff") || { echo "$id PATCH FAILS"; rm -rf "$W"; exit 1; }
b=$(run_demo)
t=skip
if [ "$2" != notest ]; then
  sed "s#cd /repo#cd $W#" /opt/vp/env.sh > /tmp/seedw-$id.env
  mkdir -p /tmp/seedw-$id.logs
  sed "s#/opt/vp/env.sh#/tmp/seedw-$id.env#; s#/opt/vp/logs#/tmp/seedw-$id.logs#g" /opt/vp/test.sh > /tmp/seedw-$id.test.sh
  t=$(cd $W && bash /tmp/seedw-$id.test.sh /tmp/seedw-$id.json >/tmp/seedw-$id.tout 2>&1; python3 -c "
import json
o=json.load(open('/tmp/seedw-$id.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']);print([x for x in b['stable'] if x not in p])")
fi
echo "$id demo-clean=$a demo-patched=$b tests-missing=$t"
[ "$b" = 0 ] && tail -5 /tmp/seedw-$id.demo; [ "$a" != 0 ] && tail -20 /tmp/seedw-$id.demo
rm -rf "/tmp/seedw-$id"
