#!/bin/bash
# tryseed.sh ID...: for each planted bug, the stable tests and its property's check with the patch, on copies of /repo and the
# committed /verif in a mount namespace of their own (DEMO=1 runs the demos too; TIER=thorough; PROPS="X Y" other checks)
W=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf -- "$W"' EXIT
cp -a /repo "$W/repo"; git -C "$W/repo" checkout -q -- .; git clone -q /verif "$W/verif"; cp -a /verif/build "$W/verif/build"; cp -a /opt/vp "$W/vp"
cp -a /verif/seeded "$W/verif/" 2>/dev/null
export W
unshare -m bash -s "$@" <<'I'
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/vp /opt/vp
cd /repo || exit 1
for id in "$@"; do
d=/verif/seeded/$id
prop=${PROPS:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
t=""
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh > /tmp/seed_$id.build 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/seed_$id.json > /tmp/seed_$id.test 2>&1; t=$(tail -1 /tmp/seed_$id.test); fi
[ -n "$DEMO" ] && { bash $d/demo.sh > /tmp/seed_$id.bad 2>&1; t="$t, demo rc=$?"; }
for p in $prop; do
(cd /verif && VERIF_TIER=${TIER:-quick} timeout 900 python3 check.py $p > /tmp/seed_$id.check 2>&1; echo "$id: $t; check $p rc=$?"; grep -a "counterexample\|PROBLEM\|ERROR" /tmp/seed_$id.check | cut -c1-200)
done
git checkout -q -- .
[ -n "$DEMO" ] && { bash $d/demo.sh > /tmp/seed_$id.clean 2>&1; echo "   clean demo rc=$?"; }
done
I
