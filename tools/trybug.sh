#!/bin/bash
# tools/trybug.sh ID [nocheck] - confirms seeded/ID in a scratch copy bind-mounted over /repo
# (private mount namespace), then runs the property's check against it.  `trybug.sh ID only`
# applies the patch and runs the check without building the repository's own tests.
ID=$1; MODE=${2:-check}
D=/verif/seeded/$ID; S=/tmp/scr-$ID; L=/tmp/try-$ID.log
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
rm -rf "/tmp/scr-$ID" "/tmp/vb-$ID" "/tmp/seed-$ID"; mkdir -p /tmp/seed-$ID
for f in $D/*; do case $f in *.diff|*.patch|*meta.json) ;; *) cp -r $f /tmp/seed-$ID/;; esac; done
cp -a /repo $S
unshare -m bash -c '
ID='$ID' P='$P' MODE='$MODE' D='$D' S='$S' L='$L'
mount --bind $S /repo || exit 9
cd /repo; git checkout -q -- .
if [ $MODE = only ]; then git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }; MODE=check
else
bash /opt/vp/build.sh > $L 2>&1 || { echo "$ID: base build failed"; exit 1; }
timeout 300 bash /tmp/seed-$ID/demo.sh >> $L 2>&1; rc=$?; [ $rc = 0 ] || { echo "$ID: demo fails on base rc=$rc"; grep -vE "^\[[0-9]+/" $L | tail -8; exit 1; }
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >> $L 2>&1 || { echo "$ID: patched build failed"; tail -30 $L; exit 1; }
bash /opt/vp/test.sh /tmp/try-$ID.json >> $L 2>&1
python3 - <<PY
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("/tmp/try-$ID.json"))
st=b["stable"]
m=[x for x in st if x not in set(t["passed"])]
print("$ID: tests", "ok" if not m else "BROKEN %s"%m[:5])
PY
timeout 300 bash /tmp/seed-$ID/demo.sh > /tmp/try-$ID.demo 2>&1; echo "$ID: demo on patched rc=$? : $(tail -1 /tmp/try-$ID.demo)"
fi
if [ $MODE = check ]; then
  VSIM_BUILD=/tmp/vb-$ID VSIM_CCACHE=/verif/build/ccache VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/bin/vsim.py check $P > /tmp/try-$ID.chk 2>&1
  echo "$ID: check $P rc=$?"; grep -E "VIOLATION|ERROR|OK|runs" /tmp/try-$ID.chk | cut -c1-300 | head -12
fi
'
rm -rf "/tmp/scr-$ID" "/tmp/vb-$ID" "/tmp/seed-$ID"
