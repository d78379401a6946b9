#!/bin/bash
# plant.sh NAME [CHECK...]: validates /verif/seeded/NAME in the scratch copy /tmp/w (see /tmp/vpw scripts): tests pass, demo fails with the patch and passes without, checks report it
d=/verif/seeded/$1; shift
exec 8>/tmp/w.lock; flock 8
cd /tmp/w && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e temp -e bin || exit 9
bash /tmp/vpw/build.sh >/tmp/w.build 2>&1 || { echo BUILD-CLEAN-FAILED; exit 9; }
bash $d/demo.sh >/tmp/w.demo0 2>&1; r0=$?
git apply $d/patch.diff || { echo PATCH-FAILED; exit 9; }
bash /tmp/vpw/test.sh /tmp/w.json >/tmp/w.test 2>&1
python3 /verif/tools/cmpbase.py /tmp/w.json | tail -1
bash $d/demo.sh >/tmp/w.demo1 2>&1; r1=$?
echo "demo clean=$r0 patched=$r1"
for c in "$@"; do NULLC_REPO=/tmp/w VERIF_BUILD=/tmp/wb VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/check $c > /tmp/w.chk.$c 2>&1; echo "check $c rc=$? $(grep -m1 VIOLATION /tmp/w.chk.$c) $(grep -m1 -- '--- viol' /tmp/w.chk.$c | cut -c1-250)"; done
git checkout -q -- .
