#!/bin/bash
# tools/plant.sh ID: keeps the uncommitted change of /repo as planted bug ID after confirming it
# (builds, passes the stable tests, demo fails with it and passes without it), then runs its property's check on it.
id=$1; d=/verif/seeded/$id
mkdir -p $d
git -C /repo diff --quiet || git -C /repo diff > $d/patch.diff
git -C /repo diff --quiet && git -C /repo apply $d/patch.diff
bash /opt/vp/build.sh || { echo "NO BUILD"; git -C /repo checkout -- .; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json
(cd /repo; timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1); a=$?
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /verif/check.sh $prop quick > /tmp/check.out; c=$?
git -C /repo checkout -- .
bash /opt/vp/build.sh
(cd /repo; timeout 300 bash $d/demo.sh >/tmp/demo0.out 2>&1); b=$?
echo "$id: demo with=$a (want nonzero) without=$b (want 0); check $prop rc=$c"
[ $b != 0 ] && tail -5 /tmp/demo0.out
[ $a == 0 ] && tail -5 /tmp/demo.out
head -3 /tmp/check.out | cut -c1-400
