#!/bin/bash
# tools/plant.sh ID [check-id ...]: try the planted bug seeded/ID in a throw-away overlay of /repo, /opt and /verif.
# prints: demo on the clean tree, patch applies, tests, demo with the patch, each check's exit code. NOTEST=1 skips the tests.
id=$1; shift
checks="$*"
[ -z "$checks" ] && checks=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
s=/tmp/plant-$id-$$
mkdir -p $s/{ro,rw,oo,ow,vo,vw,demo}
cp -a /verif/seeded/$id/. $s/demo; rm -f $s/demo/patch.diff $s/demo/meta.json
export id checks s
unshare -Urm bash -c '
mount -t overlay o -o userxattr,lowerdir=/repo,upperdir=$s/ro,workdir=$s/rw /repo
mount -t overlay o -o userxattr,lowerdir=/opt,upperdir=$s/oo,workdir=$s/ow /opt
mount -t overlay o -o userxattr,lowerdir=/verif,upperdir=$s/vo,workdir=$s/vw /verif
cd /repo
timeout 300 bash $s/demo/demo.sh >$s/demo0.log 2>&1; d0=$?
git -c safe.directory=/repo apply /verif/seeded/$id/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
t="tests skipped"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $s/t.json >$s/t.log 2>&1; t=$(tail -1 $s/t.log); else bash /opt/vp/build.sh >$s/t.log 2>&1 || t="BUILD FAILED"; fi
cd /repo; timeout 300 bash $s/demo/demo.sh >$s/demo1.log 2>&1; d1=$?
r=""
for c in $checks; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/bin/check $c quick >$s/c-$c.log 2>&1; r="$r $c=$?"; grep -h -m1 "^  " $s/c-$c.log; done
echo "$id: demo clean=$d0 patched=$d1 | $t | checks$r"
grep -h "^FAILED\|^ERROR" $s/t.log | cut -c1-150 | head -4
[ $d0 = 0 ] || tail -3 $s/demo0.log
[ $d1 = 0 ] && tail -3 $s/demo1.log
exit 0
'
[ -n "$KEEP" ] || rm -rf "/tmp/plant-$id-$$"
