#!/bin/bash
# tools/trybug.sh <seeded id>: apply a planted change to /repo, build, run its demo and the quick
# check of its property, then undo it.  TESTS=1 also runs the existing test suite with the change.
V="$(cd "$(dirname "$0")/.." && pwd)"
S="$V/seeded/$1"
pid=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
git apply --check "$S/patch.diff" || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1; bash "$S/demo.sh" >/tmp/demo0.log 2>&1; d0=$?
git apply "$S/patch.diff"
bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
bash "$S/demo.sh" >/tmp/demo1.log 2>&1; d1=$?
[ -n "$TESTS" ] && { bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1; tail -1 /tmp/tb.log; }
(cd "$V" && ./check "$pid" --tier quick > /tmp/chk.log 2>&1); c=$?
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
echo "$1 property=$pid build=$b demo_clean=$d0 demo_bug=$d1 check=$c $(grep -m1 -A1 '^---' /tmp/chk.log | cut -c1-160 | tr '\n' ' ')"
