#!/bin/bash
# tools/try_bug.sh ID [test] [CHECK...]: applies a planted bug to /repo, runs the test suite (with "test"), its
# demonstration and the given checks (default: the check of its property), then restores /repo.
# For development only; no check uses it.
id=$1; shift
dir=/verif/seeded/$id
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
runtests=
if [ "$1" = test ]; then runtests=1; shift; fi
checks=${*:-$prop}
[ -z "$(git -C /repo status --porcelain -uno)" ] || { echo "/repo is not clean"; exit 1; }
demo() { (cd /repo && timeout 300 bash $dir/demo.sh >/tmp/demo.out 2>&1; echo $?); }
if [ -n "$runtests" ]; then echo "demo unchanged: exit $(demo)"; fi
git -C /repo apply $dir/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
echo "demo patched: exit $(demo)"; tail -3 /tmp/demo.out
if [ -n "$runtests" ]; then
    bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo "build failed"; tail -5 /tmp/build.out; }
    bash /opt/vp/test.sh /tmp/test.json >/tmp/test.out 2>&1
    /opt/venv/bin/python - <<'P'
import json
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
good = set(json.load(open("/tmp/test.json"))["passed"])
bad = [t for t in base if t not in good]
print("stable tests not passing: %d %s" % (len(bad), bad[:4]))
P
fi
for c in $checks; do
    /verif/check $c > /tmp/check.out 2>&1; echo "$c exit $?"; grep -m1 -A1 VIOLATION /tmp/check.out | cut -c1-300; head -1 /tmp/check.out | cut -c1-200
done
