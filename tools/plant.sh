#!/bin/bash
# plant.sh ID new: scratch copy of the repository in /tmp/wt to edit
# plant.sh ID: take the edits in /tmp/wt as planted bug ID and confirm it in
#   scratch copies (build, tests, demonstration with and without, own check)
# plant.sh ID again: confirm the stored patch
# R: the repository (default /repo), V: this directory's copy
set -u
id="$1"; mode="${2:-confirm}"
V=$(cd "$(dirname "$0")/.." && pwd); R=${R:-$(cd "$V/harness" && . ../env.sh && go list -m -f '{{.Dir}}' github.com/innerr/ticat)}
S=$V/seeded/$id
if [ "$mode" = new ]; then
  rm -rf /tmp/wt; cp -a "$R" /tmp/wt; git -C /tmp/wt checkout -q -- .; echo "edit in /tmp/wt"; exit 0
fi
mkdir -p "$S"
[ "$mode" = confirm ] && git -C /tmp/wt diff > "$S/patch.diff"
[ -s "$S/patch.diff" ] || { echo "no patch"; exit 1; }
python3 - "$S/patch.diff" "$R" <<'P' || exit 1
import sys,subprocess
bad=n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'):
        f=l[6:].strip()
        base=subprocess.run(['git','-C',sys.argv[2],'show','7f34bf9:'+f],capture_output=True,text=True).stdout.splitlines()
    elif l.startswith('-') and not l.startswith('---'):
        n+=1
        if l[1:].rstrip('\n') not in base: bad+=1; print('not original:',l.rstrip())
print('removed lines',n,'not original',bad)
P
w=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$w"' EXIT; chmod 755 "$w"
git clone -q "$R" "$w/repo"; git clone -q "$V" "$w/verif"; rm -rf "$w/verif/seeded"
(cd "$w/verif/harness" && . ../env.sh && go mod edit -replace github.com/innerr/ticat="$w/repo")
cp -r "$S" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
. /opt/vp/env.sh
bld() { (cd "$w/repo" && go build ./... && go build -o bin/ticat ./pkg/main); }
bld || { echo BUILD0; exit 1; }
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh") >/tmp/demo0.log 2>&1; r0=$?
git -C "$w/repo" apply "$S/patch.diff" || exit 1
bld || { echo "DOES NOT BUILD"; exit 1; }
(cd "$w/repo" && go test ./... 2>&1 | grep -v "no test files")
(cd "$w/repo" && timeout 300 bash "$w/demo/demo.sh") >/tmp/demo1.log 2>&1; r1=$?
echo "demo clean=$r0 patched=$r1"; tail -5 /tmp/demo1.log
[ $r0 = 0 ] || { echo "--- clean demo output"; tail -20 /tmp/demo0.log; }
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
(cd "$w/verif"; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $p > /tmp/plant.check 2>/dev/null; echo "check $p exit $?"; grep -c VIOLATION /tmp/plant.check; tail -4 /tmp/plant.check | cut -c1-300)
