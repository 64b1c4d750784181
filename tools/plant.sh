#!/bin/bash
# plant.sh ID [--nocheck]: with the edit made in the scratch copy /tmp/seed/repo, record it as seeded/ID/patch.diff and confirm it:
# builds, stable tests pass, demo fails with it and passes without it; then run the property's check on it
id=$1; d=/verif/seeded/$id; R=/tmp/seed/repo
[ -d "$d" ] || { echo "no $d"; exit 1; }
cd $R || exit 1
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { git apply "$d/patch.diff" 2>/dev/null; }
. /opt/vp/env.sh; cd $R
export CARGO_TARGET_DIR=/tmp/seed/target
SLOW='test(=tests::network_swift3::swift3_test::dot_test) + test(=tests::iris_swift3::iris_swift3_test::hwd_test_swift3) + test(=tests::iris_swift3::iris_swift3_test::cmp_iris_test_swift3) + test(=tests::iris_swift3::iris_swift3_test::full_test_swift3)'
cargo test --workspace --all-targets --no-run --locked --offline > /tmp/seed/build.log 2>&1 || { echo "does not build"; grep -E "^error" -A8 /tmp/seed/build.log | head -30; git checkout -q -- .; exit 1; }
timeout -k 30 840 cargo nextest run --workspace --no-fail-fast --locked --offline --run-ignored all -E "not ($SLOW)" --test-threads 8 > /tmp/seed/test.log 2>&1
tail -3 /tmp/seed/test.log | grep -E "Summary|FAIL" ; grep -E "^ +(Summary|FAIL)" /tmp/seed/test.log | sort -u | head -5
bash "$d/demo.sh" > /tmp/seed/demo1.log 2>&1; a=$?
pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "$2" != --nocheck ]; then VLINT_REPO=$R VLINT_BUILD=/tmp/lab/build python3 /verif/check.py $pid > /tmp/seed/check.log 2>&1; c=$?; else c=-; fi
git checkout -q -- .
bash "$d/demo.sh" > /tmp/seed/demo0.log 2>&1; b=$?
echo "$id: demo patched rc=$a clean rc=$b; check $pid rc=$c"; grep -v "^warn\|^ *|\|^ *-->" /tmp/seed/demo1.log | grep -v "^ \|^note\|^$" | tail -3 | cut -c1-200; grep -E "^  [a-z]|^ok" /tmp/seed/check.log | head -4 | cut -c1-200
