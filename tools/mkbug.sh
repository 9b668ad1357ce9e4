#!/bin/bash
# Turns the current uncommitted change in /repo into a planted bug.
# usage: mkbug.sh NAME PROPERTY "needs" "what it breaks" DEMO_MAIN_RS [full [DIR]]
# DIR holds images.tgz and expect.txt of the demonstration
# Verifies it: builds, stable tests pass, demo fails with it and passes without it.
set -e
trap "git -C /repo checkout -q -- ." EXIT
N=$1; P=$2; NEEDS=$3; WHAT=$4; MAIN=$5; KIND=${6:-core}; DIR=$7
D=/verif/seeded/$N
mkdir -p "$D"
git -C /repo diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no change"; exit 1; }
cp "$MAIN" "$D/main.rs"
cp /verif/tools/demo-$KIND.sh "$D/demo.sh"; chmod +x "$D/demo.sh"
[ "$KIND" = full ] && cp /verif/tools/lzxpress_stub.rs "$D/"
[ -n "$DIR" ] && cp "$DIR/images.tgz" "$DIR/expect.txt" "$D/"
python3 - "$D" "$P" "$NEEDS" "$WHAT" <<'PY'
import json,sys
d,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(d+"/meta.json","w"),indent=1)
PY
bash /opt/vp/build.sh >/tmp/mkbug.log 2>&1 || { echo BUILD FAILS; tail -20 /tmp/mkbug.log; exit 1; }
bash /opt/vp/test.sh /tmp/mkbug.json 2>&1 | tail -1
python3 - <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/mkbug.json'))
m=set(b)-set(r['passed'])
if m: print("TESTS CATCH IT", sorted(m)[:5]); sys.exit(1)
PY
set +e
cd /repo
"$D/demo.sh" >/tmp/mkbug.demo1 2>&1; a=$?
git -C /repo checkout -- .
"$D/demo.sh" >/tmp/mkbug.demo0 2>&1; b=$?
echo "with bug: $a, without: $b"
[ $a != 0 ] && [ $a != 4 ] && [ $a != 3 ] && [ $b = 0 ] && echo "PLANTED $N" || { echo "NOT OK";  tail -n5 /tmp/mkbug.demo1 /tmp/mkbug.demo0; exit 1; }
