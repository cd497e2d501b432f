#!/bin/bash
# tools/plant.sh ID [CHECK...]: validate seeded/ID in a scratch copy of /repo that is mounted over /repo in a private mount namespace:
# builds, stable tests pass, demo fails with the patch and passes without; then runs the checks (default: the property of meta.json)
ID=$1; shift
D=/verif/seeded/$ID
W=/tmp/plant.$ID
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"; git -C "$W/repo" checkout -q -- .
mkdir "$W/verif"; (cd /verif && cp -a bin checks mc tools known_findings.txt "$W/verif/")
cp -r "$D" "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
export D W P ID
unshare -m --propagation private bash -c '
mount --bind $W/repo /repo || exit 9
cd /repo
bash $W/demo/demo.sh > $W/demo0.log 2>&1 && echo "$ID demo clean: ok" || { echo "$ID DEMO FAILS ON CLEAN TREE"; tail -5 $W/demo0.log; }
git apply $D/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
git diff --numstat
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "$ID BUILD FAILS"; tail -5 $W/build.log; exit 1; }
bash /opt/vp/test.sh $W/t.json > $W/test.log 2>&1
python3 - <<Q
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$W/t.json"))
m=sorted(set(b["stable"])-set(t["passed"]))
print("$ID tests:", "ok" if not m else "BROKEN %s" % m[:5])
Q
timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1 && { echo "$ID DEMO PASSES WITH THE PATCH"; } || echo "$ID demo patched: fails as it should: $(tail -1 $W/demo1.log)"
fi
for c in $P; do
  VERIF_BUILD=$W/b $W/verif/bin/check $c > $W/check.$c.log 2>&1; r=$?
  echo "$ID check $c: exit $r $([ $r = 1 ] && echo CAUGHT || echo MISSED)"; grep -A1 "^  case" $W/check.$c.log | head -2; [ $r = 2 ] && tail -3 $W/check.$c.log
done
'
rm -rf "$W"
