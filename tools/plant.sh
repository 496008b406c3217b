#!/bin/bash
# plant.sh ID [check ids...]: confirms seeded/ID in a scratch copy of /repo, and runs checks against it.
V=${V:-/verif}; id=$1; shift; S=${SEEDS:-$V/seeded}/$id
cp $V/harness/common.[ch] $V/tools/seedkit/kit.py $S/; [ -f $S/demo.sh ] || cp $V/tools/seedkit/demo.sh $S/
for p in $(grep -o 'compile("[a-z0-9]*"' $S/demo.py | cut -d'"' -f2); do cp $V/harness/$p.c $S/; done
for m in ref feref h5 api; do grep -qw "import.*\b$m\b" $S/demo.py && cp $V/lib/$m.py $S/; done
W=/tmp/plant-$id; python3 -c "import shutil;shutil.rmtree('$W',ignore_errors=True)"; cp -a /repo $W
echo "== unpatched demo"; (cd /repo && bash $S/demo.sh); echo "rc $?"
git -C $W apply $S/patch.diff || exit 1
unshare -Urm bash -c "mount --bind $W /repo && cd /repo && bash /opt/vp/build.sh >/tmp/plant-$id.b 2>&1 || echo BUILD FAILED; echo '== patched demo'; bash $S/demo.sh; echo rc \$?; [ -n \"$NOTEST\" ] || { bash /opt/vp/test.sh /tmp/plant-$id.json >/tmp/plant-$id.t 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant-$id.json'))
st=b.get('stable') or b.get('stable_tests') or b.get('tests') or b
print('broken stable tests:', sorted(set(st)-set(o['passed'])))
P
}"
for c in "$@"; do echo "== check $c"; VERIF_REPO=$W VERIF_SEED=${SEED:-1} timeout 900 python3-vt $V/check.py $c quick | tail -4; done
python3 -c "import shutil;shutil.rmtree('$W',ignore_errors=True)"
