#!/bin/sh
# gen/t.sh CXX [go test args]: compile and run one check's tests by hand.
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
cd /verif; id=$1; shift
python3 - $id <<'P' > /tmp/ov_$id.json
import json,sys
o=json.load(open('/verif/overlay/overlay.json')); c=json.load(open('/verif/checks.json')).get(sys.argv[1],{})
for d,s in c.get('shims',{}).items(): o['Replace']['/repo/'+d]='/verif/'+s
print(json.dumps(o))
P
d=props/$(echo $id | tr A-Z a-z)
gofmt -l $d
go test -count=1 -vet=off -overlay /tmp/ov_$id.json ./$d "$@" 2>&1 | grep -v "${T_HIDE:-lvl=}"
rm -rf /verif/$d/testdata
