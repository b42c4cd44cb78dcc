#!/bin/bash
# try_seed.sh ID [PROP...]: apply seeded/ID/patch.diff to a copy of /repo that is bind-mounted over /repo in a
# private namespace, build it, run the tests, the demo and the checks. Nothing outside the copy is touched.
id=$1; shift
d=/verif/seeded/$id
prop=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=/tmp/sd/$id
rm -rf "/tmp/sd/$id" "/tmp/sd/$id.v"; mkdir -p /tmp/sd; cp -a /repo $w
git -C $w checkout -q -- . ; git -C $w apply $d/patch.diff || { echo "$id: PATCH FAILS"; exit 2; }
c=$( cd /repo && bash $d/demo.sh >$w.demo0 2>&1; echo $?)
mkdir $w.v; (cd /verif; cp -a check.py replay.py props.py gen.py known_findings.jsonl MANIFEST.json properties.jsonl config engine h model $w.v/)
unshare -Urm bash -c "mount --bind $w /repo && cd /repo && bash /opt/vp/build.sh >$w.build 2>&1; echo build \$? >$w.res
 [ -n \"$NOTEST\" ] || bash /opt/vp/test.sh $w.json >$w.test 2>&1
 bash $d/demo.sh >$w.demo1 2>&1; echo demo \$? >>$w.res
 for p in $prop; do timeout 1200 python3 $w.v/check.py \$p quick >$w.check.\$p 2>&1; echo check \$p \$? >>$w.res; done"
[ -n "$NOTEST" ] || python3 - $w.json >>$w.res <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x,k='passed'):
    v=x.get(k,x) if isinstance(x,dict) else x
    return set(v if not isinstance(v,dict) else [n for n,s in v.items() if s in('passed','pass',True)])
m=set(b['stable'])-names(r)
print('tests missing',sorted(m)[:5],len(m))
P
echo "== $id demo-clean $c"; cat $w.res; grep -h VIOLATION $w.check.* | head -3
rm -rf "/tmp/sd/$id" "/tmp/sd/$id.v"
