#!/bin/bash
# bug.sh ID PROPERTY DEMO "needs" "what it breaks": confirms the change present in
# the scratch copy /tmp/w (built by /tmp/wbuild.sh) and keeps it as seeded/ID.
# DEMO is a shell fragment; it may use fa/fail/$T of demokit/kit.sh.
set -u
ID=$1 PROP=$2 DEMO=$3 NEEDS=$4 BREAKS=$5
D=${SEED:-/verif/seeded}/$ID
git -C /tmp/w diff >/tmp/w.diff
[ -s /tmp/w.diff ] || { echo "no change"; exit 1; }
mkdir -p "$D" && cp -r $(dirname "$0")/demokit/. "$D/"
{ echo '#!/bin/bash'; echo '. "$(dirname "$0")/kit.sh"'; cat "$DEMO"; } >"$D/demo.sh"
chmod +x "$D/demo.sh"
cp /tmp/w.diff "$D/patch.diff"
python3 - "$D" "$PROP" "$NEEDS" "$BREAKS" <<'P'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
P
bash /tmp/wbuild.sh >/tmp/w.log 2>&1 || { grep -m5 error: /tmp/w.log; echo "BUILD FAILS"; rm -r "$D"; exit 1; }
bash /tmp/wtest.sh /tmp/w.json 2>&1 | tail -1 | grep -q "16 passed, 0 failed" || { echo "TESTS FAIL"; rm -r "$D"; exit 1; }
(cd /tmp/w && bash "$D/demo.sh"); rc1=$?
(cd /repo && bash "$D/demo.sh"); rc0=$?
echo "demo: patched $rc1, clean $rc0"
[ $rc1 -ne 0 ] && [ $rc0 -eq 0 ] || { echo "DEMO WRONG"; [ "${KEEP:-}" ] || rm -r "$D"; exit 1; }
if [ -z "${NOCHECK:-}" ]; then
  (cd ${V:-/verif} && REPO=/tmp/w ./check.sh $PROP quick | tail -4)
fi
git -C /tmp/w checkout -q -- .
