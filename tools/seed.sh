#!/bin/bash
# seed.sh ID: the edited scratch copy /tmp/wt (cp -a /repo /tmp/wt) becomes
# /verif/seeded/ID/patch.diff; demo.sh and meta.json must already lie there.
# Confirms: it builds, the stable tests pass, the demo tells them apart.
id=$1; d=/verif/seeded/$id
cd /tmp/wt || exit 1
git diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
# must change original lines
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go build ./... || exit 1
go vet . 2>&1 | head -5
fail=$(go test ./... 2>&1 | grep -E '^(---|\s+---) FAIL|^FAIL')
[ -n "$fail" ] && { echo "TESTS FAIL: $fail"; exit 1; }
lw=$(mktemp -d); go build -o "$lw/g" ./cmd/gmnlisp && fail=$(python3 /opt/vp/lisptests.py "$lw/g" "$lw" | grep '^FAIL' | head -3); rm -rf "$lw"
[ -n "$fail" ] && { echo "LISP TESTS FAIL: $fail"; exit 1; }
(cd /tmp/wt && bash "$d/demo.sh" >/tmp/demo.out 2>&1); a=$?
(cd /repo && bash "$d/demo.sh" >/tmp/demo0.out 2>&1); b=$?
echo "$id: with patch $a, without $b"
[ $a != 0 ] && [ $b = 0 ] || { cat /tmp/demo.out; echo ---; cat /tmp/demo0.out; exit 1; }
# which patched lines are original
git diff -U0 | grep -E '^@@' >/tmp/hunks
(cd /repo && git apply --check "$d/patch.diff") && echo applies
git checkout -q -- .
