#!/bin/bash
# seedtest.sh ID [check]: confirm a planted bug: builds, stable tests pass, demo
# fails with it and passes without it; then whether the property's check fires
id=$1; d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
tmp=$(mktemp -d)
cp -r $d $tmp/s
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >$tmp/build.log 2>&1 || { tail -20 $tmp/build.log; echo "$id: BUILD FAILS"; }
bash /opt/vp/test.sh $tmp/o.json >$tmp/test.log 2>&1
python3 - $tmp/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed'):
            if k in x: return x[k]
    return x
bs=names(b); os_=names(o)
bs=set(bs) if not isinstance(bs,dict) else set(k for k,v in bs.items() if v)
os_=set(os_) if not isinstance(os_,dict) else set(k for k,v in os_.items() if v)
print('tests: baseline',len(bs),'missing',len(bs-os_), sorted(bs-os_)[:3])
P
(cd /repo && bash $tmp/s/demo.sh >$tmp/demo1.log 2>&1); r1=$?
if [ "$2" != nocheck ]; then ( cd /verif && ./check.sh $p > $tmp/check.log 2>&1 ); rc=$?; grep -v "^  " $tmp/check.log | tail -${LINES_SHOWN:-4}; else rc=skipped; fi
git checkout -- . 
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && bash $tmp/s/demo.sh >$tmp/demo0.log 2>&1); r0=$?
echo "$id ($p): demo clean=$r0 (want 0) patched=$r1 (want !=0) check=$rc (want 1)"
[ $r0 = 0 ] || tail -5 $tmp/demo0.log
rm -rf "$tmp"
