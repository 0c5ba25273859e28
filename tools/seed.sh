#!/bin/bash
# seed.sh ID: with a change made in the scratch copy /tmp/seed/repo, writes seeded/ID/patch.diff (unless
# there is one already and -k is given), confirms it (build, stable tests, demo both ways) and runs the
# property's quick check against it. seed.sh -v ID only confirms what is in seeded/ID.
mode=new; [ "$1" = -v ] && { mode=verify; shift; }
id=$1; d=/verif/seeded/$id
. /opt/vp/env.sh
if [ $mode = new ]; then
  git -C /tmp/seed/repo diff > $d/patch.diff
fi
[ -s $d/patch.diff ] || { echo "empty patch"; exit 1; }
[ -f $d/demo.sh ] || cat > $d/demo.sh <<'D'
#!/bin/bash
# Runs the demonstration as a test of a package that exists only in the overlay.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
o=$(mktemp -d) || exit 1
trap 'rm -rf "$o"' EXIT
echo "{\"Replace\": {\"$PWD/zzdemo/demo_test.go\": \"$here/demo.go.txt\"}}" > "$o/overlay.json"
export TMPDIR=$o
go test -c -o "$o/demo" -vet=off -overlay "$o/overlay.json" ./zzdemo || exit 1
mkdir "$o/w" && cd "$o/w" && "$o/demo" -test.timeout 240s
D
rm -rf /tmp/seed/a /tmp/seed/b
cp -a /repo /tmp/seed/a; cp -a /repo /tmp/seed/b
git -C /tmp/seed/b apply $d/patch.diff || exit 1
(cd /tmp/seed/b && go build ./... ) || { echo BUILD FAILS; exit 1; }
(cd /tmp/seed/b && go test -vet=off -count=1 -skip '^TestParseArff$' ./... 2>&1 | grep -E '^(FAIL|---)' ) && { echo TESTS FAIL; exit 1; }
mkdir -p /tmp/seed/demo; rm -rf /tmp/seed/demo/x; cp -a $d /tmp/seed/demo/x; rm -f /tmp/seed/demo/x/patch.diff /tmp/seed/demo/x/meta.json
for i in 1 2 3; do
  (cd /tmp/seed/a && bash /tmp/seed/demo/x/demo.sh > /tmp/seed/out.a 2>&1); ra=$?
  (cd /tmp/seed/b && bash /tmp/seed/demo/x/demo.sh > /tmp/seed/out.b 2>&1); rb=$?
  echo "demo: unchanged $ra, with the change $rb"
  [ $ra = 0 ] && [ $rb != 0 ] || { tail -5 /tmp/seed/out.a; tail -5 /tmp/seed/out.b; exit 1; }
done
grep -v '^goroutine\|^\s' /tmp/seed/out.b | head -4
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
VSIM_REPO=/tmp/seed/b bash /verif/run.sh check $prop quick 2>&1 | tail -3 | cut -c1-400
rm -rf /tmp/seed/a /tmp/seed/b /tmp/seed/demo/x
