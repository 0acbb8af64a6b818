#!/bin/bash
# tryseed.sh <id>...: confirm planted bugs in a scratch copy: applies, builds, tests pass, demo 0 before / nonzero after
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
for id in "$@"; do
 d=/verif/seeded/$id; w=/tmp/seedwt_$id; rm -rf "/tmp/seedwt_$id"; git clone -q /repo $w; cd $w; git checkout -q -- . 
 bash $d/demo.sh >/tmp/demo_$id.log 2>&1; a=$?
 git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
 go build ./... || { echo "$id: no build"; continue; }
 GODEBUG=randautoseed=0 go test -vet=off ./... 2>&1 | grep -E "^(--- FAIL|FAIL|panic)" | head -5 > /tmp/seedtest_$id.log
 bash $d/demo.sh >/tmp/demo2_$id.log 2>&1; b=$?
 echo "$id: demo before=$a after=$b tests: $(cat /tmp/seedtest_$id.log | tr '\n' ' ')"
 cd /; rm -rf "/tmp/seedwt_$id"
done
