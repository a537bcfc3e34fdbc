#!/bin/bash
# try.sh PATCH PROPERTY...: in a private mount namespace, where /repo is a
# copy with the patch applied, runs the repository's tests, the demo beside
# the patch, and the checks.  Nothing outside of it is changed.
# A PATCH of "-" leaves the copy as it is.
if [ -z "$IN_NS" ]; then
    exec env IN_NS=1 unshare -m bash "$0" "$@"
fi
set -e
patch=$1; shift
[ "$patch" = - ] || patch=$(realpath "$patch")
dir=$(dirname "$patch")
tmp=$(mktemp -d /tmp/try.XXXXXX)
trap 'umount /repo; rm -rf "$tmp"' EXIT
cp -a /repo "$tmp/repo"
mount --bind "$tmp/repo" /repo
mkdir -p "$tmp/ev" "$tmp/rp" /verif/replays; mount --bind "$tmp/ev" /verif/evidence
cd /repo
if [ -f "$dir/demo.sh" ]; then
    bash /opt/vp/build.sh
    bash "$dir/demo.sh" > "$tmp/demo0" 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; cat "$tmp/demo0"; }
fi
[ "$patch" = - ] || git apply "$patch"
bash /opt/vp/build.sh
bash /opt/vp/test.sh "$tmp/t.json"
python3 - "$tmp/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def names(x):
    for k in ('stable','stable_tests','passed','pass'):
        if k in x: return set(x[k])
    return set()
miss=names(b)-names(t)
print('tests:', 'ok' if not miss else 'FAIL %s' % sorted(miss), len(names(b)))
P
if [ -f "$dir/demo.sh" ]; then
    bash "$dir/demo.sh" > "$tmp/demo1" 2>&1 && echo "demo patched: PASSES (bad)" || echo "demo patched: fails (good): $(tail -3 "$tmp/demo1" | tr '\n' ' ' | cut -c1-300)"
fi
cd /verif
for p in "$@"; do
    python3 check.py $p > "$tmp/out" 2>&1 && rc=0 || rc=$?
    echo "$p rc=$rc $(grep -E 'VIOLATION|FAILED|does not have' "$tmp/out" | cut -c1-${W:-300} | tr '\n' ' ')"
done
umount /verif/evidence
