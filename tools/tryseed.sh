#!/bin/bash
# tryseed.sh ID...: try each seeded bug in a private copy of /repo, laid over /repo in a mount namespace of its own:
# build, tests, demo and the property's check with the change, and the demo without it.
[ "$1" = --inner ] || exec unshare -m bash "$0" --inner "$@"
shift
mount --make-rprivate / 
for id in "$@"; do
    s=/verif/seeded/$id
    p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $s/meta.json)
    w=$(mktemp -d /tmp/seed.XXXXXX); d=$(mktemp -d /tmp/demo.XXXXXX)
    cp -a /repo $w/repo; mkdir $w/reports $w/vev; cp $s/* $d; rm -f $d/patch.diff $d/meta.json
    cp -a /verif/evidence/. $w/vev/ 2>/dev/null
    mount --bind $w/repo /repo; mount --bind $w/reports /opt/vp/reports; mount --bind $w/vev /verif/evidence
    cd /repo
    timeout 300 bash $d/demo.sh > $w/demo0.log 2>&1; d0=$?
    git apply $s/patch.diff || { echo "$id DOES NOT APPLY"; }
    b=skip; t=skip
    if [ -z "$QUICK" ]; then
        bash /opt/vp/build.sh > $w/build.log 2>&1; b=$?
        bash /opt/vp/test.sh $w/out.json > $w/test.log 2>&1
        t=$(python3 - $w/out.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=o.get('passed') or [k for k,v in o.items() if v in ('pass','PASS',True)]
print('fails:%d' % len([x for x in b if x not in set(ok)]))
P
)
    fi
    timeout 300 bash $d/demo.sh > $w/demo1.log 2>&1; d1=$?
    cd /verif
    timeout 900 python3-vt pv/check.py $p > $w/check.log 2>&1; c=$?
    v=$(grep '^VIOLATION' $w/check.log | head -1)
    echo "$id $p build=$b tests=$t demo0=$d0 demo1=$d1 check=$c $v"
    [ -n "$KEEP" ] && cp $w/*.log /tmp/ 
    cd /; umount /verif/evidence /opt/vp/reports /repo
    [ "$d0" = 0 ] || tail -5 $w/demo0.log
    [ "$d1" = 1 ] || tail -3 $w/demo1.log
    rm -rf "$w" "$d"
done
