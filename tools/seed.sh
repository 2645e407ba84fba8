#!/bin/bash
# usage: seed.sh ID PROP "needs" "breaks"   -- takes the diff of the scratch worktree /tmp/seedwt (made from
# /repo's HEAD), and demo.c (+ optional demo.sh) in /tmp/seeddemo; builds and tests it there, and keeps it in
# /verif/seeded/ID when it builds, passes the stable tests and the demo separates the two trees.
set -u
ID=$1 PROP=$2 NEEDS=$3 BREAKS=$4
OUT=/verif/seeded/$ID
mkdir -p $OUT
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
[ -f /tmp/seed.diff ] || { echo no /tmp/seed.diff; exit 1; }
cp /tmp/seed.diff $OUT/patch.diff
[ -f /tmp/seeddemo/demo.c ] && cp /tmp/seeddemo/demo.c $OUT/demo.c
if [ -f /tmp/seeddemo/demo.sh ]; then cp /tmp/seeddemo/demo.sh $OUT/demo.sh; else
cat > $OUT/demo.sh <<'D'
#!/bin/bash
# compiles demo.c against the amalgamated library of the current tree and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
gcc -g -O1 -w -I "$R/build/c" "$D/demo.c" -o "$W/demo" -lm || exit 3
cd "$W" && timeout 120 ./demo
D
fi
chmod +x $OUT/demo.sh
python3 - "$PROP" "$NEEDS" "$BREAKS" > $OUT/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
cd /repo
run_demo() { (cd /repo && bash $OUT/demo.sh >/tmp/seed_demo.log 2>&1); echo $?; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo BUILD base failed; exit 1; }
echo "demo base: $(run_demo)"; tail -2 /tmp/seed_demo.log
git apply $OUT/patch.diff || { echo apply failed; exit 1; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 && echo built || { echo BUILD patched failed; tail -5 /tmp/seed_build.log; }
echo "demo patched: $(run_demo)"; tail -2 /tmp/seed_demo.log
if [ "${NOTEST:-0}" = 0 ]; then
bash /opt/vp/test.sh /tmp/seed_test.json >/tmp/seed_test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seed_test.json'))
p=set(t.get('passed',[])) if isinstance(t,dict) else set()
print('stable tests failing with the patch:', sorted(b-p)[:5] or 'none')
P
fi
if [ "${NOCHECK:-0}" = 0 ]; then cd /verif && python3 run.py $PROP | tail -4; fi
git -C /repo checkout -- .
